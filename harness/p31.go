package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// job is a goroutine's own world and the record of what it computed.
type job struct {
	w     *World
	r     *Rng
	out   []string
	kind  map[string]int
	exact bool // literals in the order of the library
}

func (j *job) emit(what string, a ...any) {
	j.out = append(j.out, what+": "+fmt.Sprintln(a...))
	j.kind[what]++
}

func (j *job) str(x f.Formula) string { return x.Sprint(j.w.F) }

func (j *job) strs(xs []f.Formula) string {
	var s []string
	for _, x := range xs {
		s = append(s, j.str(x))
	}
	return strings.Join(s, " ; ")
}

func (j *job) formula(pb bool) f.Formula {
	g := stdCfg(j.r, j.w.N)
	g.CC, g.PB = 0, 0
	if pb {
		g.CC, g.PB, g.MaxCC = 3, 2, 5
	}
	for { // small normal forms: the subject is concurrency
		n := Gen(j.r, g)
		if pb || factSize(n, true, true) < 300 && factSize(n, true, false) < 300 {
			return j.w.Build(n)
		}
	}
}

func (j *job) lits(ls []f.Literal) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.Sprint(j.w.F))
	}
	if !j.exact {
		sort.Strings(s)
	}
	return strings.Join(s, " ")
}

// yielding hands over to other goroutines at every event.
type yielding struct {
	events  int
	stop    int
	started []string
}

func (y *yielding) ShouldResume(e event.Event) bool {
	y.events++
	if len(y.started) < 30 {
		y.started = append(y.started, e.EventType())
	}
	runtime.Gosched()
	return y.stop == 0 || y.events < y.stop
}

// p31Shared are objects a program may well share between its goroutines: they
// are configured before the goroutines start and only read afterwards.
type p31Shared struct {
	sat    *sat.Config
	enc    *encoding.Config
	cnf    *normalform.CNFConfig
	maxsat *maxsat.Config
	simp   *simplification.Config
	iter   *iter.Config
	rnd    *randomizer.Config
}

var p31jobs = []struct {
	name string
	run  func(j *job, s *p31Shared)
}{
	{"normal forms", func(j *job, s *p31Shared) {
		x := j.formula(true)
		fac := j.w.F
		j.emit("NNF", j.str(normalform.NNF(fac, x)))
		if s != nil {
			j.emit("CNF", j.str(normalform.CNF(fac, x, s.cnf)))
		}
		j.emit("CNF default", j.str(normalform.CNF(fac, x)))
		j.emit("PG", j.str(normalform.PGCNFWithBoundary(fac, x, j.r.Intn(3))))
		j.emit("Tseitin", j.str(normalform.TseitinCNFWithBoundary(fac, x, j.r.Intn(3))))
		y := j.formula(false)
		j.emit("FCNF", j.str(normalform.FactorizedCNF(fac, y)))
		j.emit("FDNF", j.str(normalform.FactorizedDNF(fac, y)))
		j.emit("AIG", j.str(normalform.AIG(fac, y)))
		j.emit("predicates", normalform.IsNNF(fac, x), normalform.IsCNF(fac, x), normalform.IsDNF(fac, y), normalform.IsAIG(fac, y))
		j.emit("canonical", enum.CanonicalCNF(fac, y) != 0, len(fac.Operands(enum.CanonicalDNF(fac, y))))
	}},
	{"solver", func(j *job, s *p31Shared) {
		fac := j.w.F
		cfg := randSatConfig(j.r)
		if s != nil && j.r.Bool() {
			cfg = s.sat
		}
		if j.r.P(30) {
			fac.PutConfiguration(cfg)
		}
		sv := sat.NewSolver(fac, cfg)
		for i := 0; i < j.r.Range(1, 6); i++ {
			sv.AddProposition(f.NewStandardProposition(j.formula(true), fmt.Sprint("p", i)))
			st := sv.SaveState()
			if j.r.P(30) {
				sv.Add(j.formula(false))
				j.emit("sat inner", sv.Sat())
				j.emit("loaded", sv.LoadState(st) == nil)
			}
			p := sat.Params()
			if j.r.P(50) {
				p.Literal(j.w.Lit(PLit{j.r.Intn(j.w.N), j.r.Bool()}))
			}
			h := &yielding{}
			p.Handler(h).WithModel(j.w.Vars())
			if cfg.ProofGeneration {
				p.WithCore()
			}
			res := sv.Call(p)
			j.emit("sat", res.Sat(), h.events)
			if res.Sat() {
				j.emit("model", j.lits(res.Model().Literals))
			} else if cfg.ProofGeneration {
				var cs []string
				for _, p := range res.UnsatCore().Propositions {
					cs = append(cs, p.Sprint(fac))
				}
				j.emit("core", cs)
			}
		}
		bb := sv.ComputeBackbone(fac, j.w.Vars())
		if bb.Sat {
			j.emit("backbone", j.lits(bb.CompleteBackbone(fac)))
		}
	}},
	{"maxsat", func(j *job, s *p31Shared) {
		fac := j.w.F
		cfg := randMaxSatConfig(j.r)
		if s != nil && j.r.Bool() {
			cfg = s.maxsat
		}
		weighted := j.r.Bool()
		var sv *maxsat.Solver
		switch k := j.r.Intn(7); {
		case k == 0 && !weighted:
			sv = maxsat.MSU3(fac, cfg)
		case k == 1 && !weighted:
			sv = maxsat.LinearUS(fac, cfg)
		case k == 2 && weighted:
			sv = maxsat.WMSU3(fac, cfg)
		case k == 3:
			sv = maxsat.WBO(fac, cfg)
		case k == 4:
			sv = maxsat.IncWBO(fac, cfg)
		case k == 5:
			sv = maxsat.OLL(fac, cfg)
		default:
			sv = maxsat.LinearSU(fac, cfg)
		}
		for i := 0; i < j.r.Range(0, 3); i++ {
			sv.AddHardFormula(j.formula(false))
		}
		for i := 0; i < j.r.Range(1, 6); i++ {
			wt := 1
			if weighted {
				wt = j.r.Range(2, 6)
			}
			sv.AddSoftFormula(j.formula(false), wt)
		}
		res := sv.Solve()
		j.emit("optimum", res.Satisfiable, res.Satisfiable && res.Optimum >= 0, res.Optimum)
	}},
	{"bdd", func(j *job, s *p31Shared) {
		fac := j.w.F
		k := bdd.NewKernelWithOrdering(fac, j.w.VarsOf(j.r.Perm(j.w.N)), 50, 50)
		x, y := j.formula(false), j.formula(false)
		a := bdd.CompileWithKernel(fac, x, k)
		b := bdd.CompileWithKernel(fac, y, k)
		j.emit("diagram", j.str(a.And(b).ToFormula(fac)), a.ModelCount(), b.NodeCount(), j.str(a.CNF()), j.str(b.DNF()))
		k.AddAllVariablesAsBlock()
		k.Reorder(pick(j.r, bdd.ReorderWin2, bdd.ReorderWin3, bdd.ReorderSift, bdd.ReorderWin2Ite, bdd.ReorderSiftIte, bdd.ReorderWin3Ite))
		j.emit("reordered", j.str(a.ToFormula(fac)), a.NodeCount(), j.lits(f.VariablesAsLiterals(b.Support())))
		m, err := a.Model()
		if err == nil {
			j.emit("diagram model", j.lits(m.Literals))
		}
		for _, o := range [][]f.Variable{bdd.BFSOrder(fac, x), bdd.DFSOrder(fac, x), bdd.MaxToMinOrder(fac, x), bdd.MinToMaxOrder(fac, x), bdd.ForceOrder(fac, x)} {
			j.emit("order", sprintVars(j.w, o))
		}
		rep := bdd.GenerateGraphical(a, bdd.DefaultGenerator())
		j.emit("drawn diagram", graphical.WriteDotToString(rep))
	}},
	{"counting", func(j *job, s *p31Shared) {
		fac := j.w.F
		x := j.formula(false)
		n := dnnf.Compile(fac, x)
		j.emit("DNNF", j.str(n.Formula), n.ModelCount())
		c, err := count.Count(fac, j.w.Vars(), x)
		j.emit("count", c, err)
		j.emit("counted models", count.OnFormula(fac, x, j.w.Vars()))
		cfg := iter.DefaultConfig()
		if s != nil {
			cfg = s.iter
		}
		ms, _ := enum.OnFormulaWithConfig(fac, x, j.w.Vars(), cfg)
		var ss []string
		for _, m := range ms {
			ss = append(ss, j.lits(m.Literals))
		}
		j.emit("models", ss)
		j.emit("models as diagram", enum.ToBddOnFormula(fac, x, j.w.Vars()).ModelCount())
	}},
	{"simplification", func(j *job, s *p31Shared) {
		fac := j.w.F
		x := j.formula(false)
		if s != nil {
			j.emit("advanced", j.str(simplification.Advanced(fac, x, s.simp)))
		} else {
			j.emit("advanced", j.str(simplification.Advanced(fac, x)))
		}
		j.emit("factor out", j.str(simplification.FactorOut(fac, x)))
		j.emit("distribute", j.str(simplification.Distribute(fac, x)))
		j.emit("negations", j.str(simplification.MinimizeNegations(fac, x)))
		j.emit("units", j.str(simplification.PropagateUnits(fac, x)))
		j.emit("backbones", j.str(simplification.PropagateBackbone(fac, x)))
		y, err := simplification.CNFSubsumption(fac, normalform.FactorizedCNF(fac, x))
		j.emit("subsumption", err, len(fac.Operands(y)))
		p := primeimplicant.CoverMin(fac, x, primeimplicant.CoverImplicants)
		j.emit("primes", len(p.Implicants), len(p.Implicates))
		j.emit("QMC", sat.IsEquivalent(fac, simplification.QMC(fac, x), x))
	}},
	{"transformation", func(j *job, s *p31Shared) {
		fac := j.w.F
		x := j.formula(true)
		sub := transformation.NewSubstitution()
		sub.AddVar(j.w.Var(j.r.Intn(j.w.N)), j.formula(false))
		y := j.formula(false)
		z, err := transformation.Substitute(fac, y, sub)
		j.emit("substituted", err, j.str(z))
		j.emit("anonymized", j.str(transformation.Anonymize(fac, x)))
		j.emit("QE", j.str(transformation.ExistentialQE(fac, y, j.w.Var(0))), j.str(transformation.UniversalQE(fac, y, j.w.Var(0))))
		asg, _ := assignment.New(fac, j.w.Lit(PLit{j.r.Intn(j.w.N), j.r.Bool()}))
		j.emit("restricted", j.str(assignment.Restrict(fac, x, asg)), assignment.Evaluate(fac, x, asg))
		j.emit("functions", f.Depth(fac, x), f.NumberOfAtoms(fac, x), f.NumberOfNodes(fac, x), f.Variables(fac, x).Size(), len(f.SubNodes(fac, x)), j.str(x.Negate(fac)))
	}},
	{"encoding", func(j *job, s *p31Shared) {
		fac := j.w.F
		cfg := randEncConfig(j.r)
		if s != nil && j.r.Bool() {
			cfg = s.enc
		}
		n := genCC(j.r, GenCfg{NV: j.w.N, MaxCC: 6, CCClean: true})
		cls, err := encoding.EncodeCC(fac, j.w.Build(n), cfg)
		if err == nil {
			j.emit("cardinality", j.strs(cls))
		}
		p := j.w.Build(genPBC(j.r, GenCfg{NV: j.w.N, MaxCC: 5, MaxCoef: 5, CCClean: true}))
		if p.Sort() == f.SortPBC {
			cls, err = encoding.EncodePBC(fac, p, cfg)
			if err == nil {
				j.emit("pseudo-boolean", j.strs(cls))
			}
		}
		if j.r.Bool() {
			fac.PutConfiguration(cfg)
		}
		g := j.formula(true)
		j.emit("encoded CNF", j.str(normalform.CNF(fac, g)))
		j.emit("encoded solver", sat.IsSatisfiable(fac, g), sat.IsTautology(fac, g))
	}},
	{"text", func(j *job, s *p31Shared) {
		fac := j.w.F
		x := j.formula(true)
		y, err := parser.New(fac).Parse(j.str(x))
		j.emit("parsed", err, y == x, j.str(y))
		_, err = parser.New(fac).Parse(j.str(x) + " & & (")
		j.emit("parse error", err != nil)
		var buf bytes.Buffer
		lio.WriteFormulaToWriter(fac, &buf, x, j.r.Bool())
		cnf := normalform.FactorizedCNF(fac, j.formula(false))
		lio.WriteDimacsToWriter(fac, &buf, cnf)
		rep := f.GenerateGraphicalFormulaDAG(fac, x, f.DefaultFormulaGraphicalGenerator())
		j.emit("written", buf.String(), graphical.WriteMermaidToString(rep), graphical.WriteDotToString(rep))
		ast := f.GenerateGraphicalFormulaAST(fac, x, f.DefaultFormulaGraphicalGenerator())
		j.emit("drawn", graphical.WriteMermaidToString(ast))
	}},
	{"graphs", func(j *job, s *p31Shared) {
		fac := j.w.F
		fs := []f.Formula{j.formula(false), j.formula(false), j.formula(true)}
		g := graph.GenerateConstraintGraph(fac, fs...)
		j.emit("components", len(graph.ComputeConnectedComponents(g)), len(g.Nodes()))
		rep := graph.GenerateGraphicalFormulaGraph(fac, g, f.DefaultFormulaGraphicalGenerator())
		j.emit("drawn graph", graphical.WriteDotToString(rep))
		h, err := graph.HypergraphFromCNF(fac, normalform.FactorizedCNF(fac, fs[0]))
		if err == nil {
			j.emit("hypergraph", len(h.Nodes), len(h.Edges))
		}
		sets := [][]int{}
		for i := 0; i < j.r.Range(1, 6); i++ {
			sets = append(sets, j.r.Subset(6, 40))
		}
		j.emit("set cover", len(np.MinimumSetCover(sets)))
		rnd := randomizer.NewWithSeed(fac, int64(j.r.Intn(1000)))
		if s != nil && j.r.Bool() {
			rnd = randomizer.New(fac, s.rnd)
		}
		j.emit("random", j.str(rnd.Formula(2)), j.str(rnd.CC()), j.str(rnd.AMO()), j.str(rnd.PBC()))
	}},
	{"explanations", func(j *job, s *p31Shared) {
		fac := j.w.F
		var ps []f.Proposition
		var fs []f.Formula
		for i := 0; i < j.r.Range(3, 9); i++ {
			x := j.formula(false)
			if i == 0 {
				x = j.w.Var(0).AsFormula()
			} else if i == 1 {
				x = fac.And(j.w.Var(0).Negate(fac).AsFormula(), j.w.Var(j.w.N-1).AsFormula())
			}
			fs = append(fs, x)
			ps = append(ps, f.NewStandardProposition(x))
		}
		a, err := mus.ComputeDeletionBased(fac, &ps)
		if err == nil {
			j.emit("deletion", len(a.Propositions))
		}
		b, err := mus.ComputeInsertionBased(fac, &ps)
		if err == nil {
			j.emit("insertion", len(b.Propositions))
		}
		j.emit("smallest", len(smus.ComputeForFormulas(fac, fs)))
		m, err := primeimplicant.Minimum(fac, normalform.FactorizedCNF(fac, fs[len(fs)-1]))
		if err == nil {
			j.emit("minimum implicant", len(m))
		}
	}},
	{"cancelled", func(j *job, s *p31Shared) {
		fac := j.w.F
		x := j.formula(false)
		stop := func() *yielding { return &yielding{stop: j.r.Range(1, 8)} }
		h := stop()
		_, st := normalform.FactorizedCNFWithHandler(fac, x, h)
		j.emit("cancelled CNF", st.Success, h.events)
		h = stop()
		_, st = bdd.CompileWithHandler(fac, j.formula(false), h)
		j.emit("cancelled BDD", st.Success, h.events)
		h = stop()
		_, st = dnnf.CompileWithHandler(fac, j.formula(false), h)
		j.emit("cancelled DNNF", st.Success, h.events)
		h = stop()
		_, st = simplification.AdvancedWithHandler(fac, j.formula(false), h)
		j.emit("cancelled simplification", st.Success, h.events)
		j.emit("afterwards", j.str(normalform.FactorizedCNF(fac, x)))
	}},
	{"configuration", func(j *job, s *p31Shared) {
		fac := j.w.F
		cfg := normalform.DefaultCNFConfig()
		cfg.Algorithm = pick(j.r, normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced)
		cfg.AtomBoundary = j.r.Intn(5)
		fac.PutConfiguration(cfg)
		rc := randomizer.DefaultConfig()
		rc.NumVars = j.r.Range(5, 9)
		rc.Seed = int64(j.r.Intn(100))
		fac.PutConfiguration(rc)
		for i := 0; i < 3; i++ {
			j.emit("configured CNF", j.str(normalform.CNF(fac, j.formula(cfg.Algorithm != normalform.CNFFactorization))))
			runtime.Gosched()
		}
		j.emit("configured randomizer", j.str(randomizer.New(fac).Formula(2)))
		c, ok := fac.ConfigurationFor(configuration.CNF)
		j.emit("configuration", ok, c == configuration.Config(cfg))
		for i := 0; i < 3; i++ {
			v := fac.NewAuxVar(f.AuxCNF)
			j.emit("auxiliary", v.Sprint(fac), fac.Var(fmt.Sprint("own", i)).Sprint(fac))
		}
	}},
}

type p31plan struct {
	seed  uint64
	ops   []int
	nv    int
	exact bool
}

func (p p31plan) run(s *p31Shared, yield bool) *job {
	r := &Rng{p.seed}
	j := &job{w: NewWorld(r, p.nv, p.seed%4 == 0), r: r, kind: map[string]int{}, exact: p.exact}
	for _, o := range p.ops {
		j.emit("start", p31jobs[o].name)
		if e := caught(func() { p31jobs[o].run(j, s) }); e != nil {
			j.emit("panic", e)
		}
		if yield {
			runtime.Gosched()
		}
	}
	return j
}

func runP31(c *Ctx) {
	r := c.R
	runtime.GOMAXPROCS(4)
	var s *p31Shared
	if r.P(50) {
		s = &p31Shared{sat: randSatConfig(r), enc: randEncConfig(r), cnf: normalform.DefaultCNFConfig(), maxsat: randMaxSatConfig(r),
			simp: simplification.DefaultConfig(), iter: iter.DefaultConfig(), rnd: randomizer.DefaultConfig()}
		s.cnf.AtomBoundary = r.Intn(4)
		s.rnd.NumVars = 6
	}
	g := r.Range(2, 6)
	var plans []p31plan
	for i := 0; i < g; i++ {
		p := p31plan{seed: r.U64(), nv: r.Range(2, 6)}
		for k := r.Range(1, 4); k > 0; k-- {
			p.ops = append(p.ops, r.Intn(len(p31jobs)))
		}
		plans = append(plans, p)
	}
	switch r.Intn(3) {
	case 0: // everybody does the same work
		for i := range plans {
			plans[i] = plans[0]
		}
	case 1: // the same kinds of work
		for i := range plans {
			plans[i].ops = plans[0].ops
		}
	}
	c.Logf("goroutines %v", plans)
	got := make([]*job, g)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[i] = plans[i].run(s, true)
		}()
	}
	close(start)
	wg.Wait()
	for _, i := range r.Perm(g) {
		alone := plans[i].run(s, false)
		n := min(len(alone.out), len(got[i].out))
		for k := 0; k < n; k++ {
			c.Check(alone.out[k] == got[i].out[k], "goroutine %d computed %s alone %s", i, cut(got[i].out[k], 300), cut(alone.out[k], 300))
		}
		c.Check(len(alone.out) == len(got[i].out), "goroutine %d computed %d results, alone %d", i, len(got[i].out), len(alone.out))
		for k, v := range alone.kind {
			if k != "start" {
				c.Obs("results: "+k, v)
			}
		}
		c.NT(strings.Join(alone.out, ""))
	}
	c.Obs("goroutines", g)
	c.Obs("concurrent sections", 1)
	if s != nil {
		c.Obs("sections with shared configurations", 1)
	}
}

func init() {
	register(&PropDef{ID: "P31", Quick: 1500, Thorough: 40000, CPU: 300,
		Rule: "race detector over goroutines with factories of their own, and every result compared with the same computation run alone afterwards",
		Need: []string{"concurrent sections", "sections with shared configurations"},
		Assume: []string{
			"configuration objects shared between goroutines are not written by the program",
			"random reordering of diagrams excluded (documented to be random)",
		},
		Run: runP31})
}
