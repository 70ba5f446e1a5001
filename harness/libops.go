package main

import (
	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// CancelAt is a fault-injecting handler: it records all events and refuses to
// resume at the n-th one (1-based; 0 = never), once or from then on.
type CancelAt struct {
	N      int
	Sticky bool
	Count  int
	Fired  int
	Cause  event.Event
	After  int // events delivered after the (first) cancellation
	Types  map[string]int
}

func (h *CancelAt) ShouldResume(e event.Event) bool {
	h.Count++
	if h.Types != nil {
		h.Types[e.EventType()]++
	}
	if h.Fired > 0 {
		h.After++
	}
	if h.N > 0 && (h.Count == h.N || h.Sticky && h.Count > h.N) {
		if h.Fired == 0 {
			h.Cause = e
		}
		h.Fired++
		return false
	}
	return true
}

// libOp runs some library computation for its side effects on the factory.
type libOp struct {
	name string
	pb   bool // admits constraints
	run  func(w *World, r *Rng, g f.Formula)
}

var libOps = []libOp{
	{"NNF", true, func(w *World, r *Rng, g f.Formula) { normalform.NNF(w.F, g) }},
	{"NNF of negation", true, func(w *World, r *Rng, g f.Formula) { normalform.NNF(w.F, w.F.Not(g)) }},
	{"CNF", true, func(w *World, r *Rng, g f.Formula) { normalform.CNF(w.F, g) }},
	{"PGCNF", true, func(w *World, r *Rng, g f.Formula) { normalform.PGCNFWithBoundary(w.F, g, r.Intn(6)) }},
	{"Tseitin", true, func(w *World, r *Rng, g f.Formula) { normalform.TseitinCNFWithBoundary(w.F, g, r.Intn(6)) }},
	{"FactorizedCNF", false, func(w *World, r *Rng, g f.Formula) { normalform.FactorizedCNF(w.F, g) }},
	{"FactorizedDNF", false, func(w *World, r *Rng, g f.Formula) { normalform.FactorizedDNF(w.F, g) }},
	{"FactorizedCNF cancelled", false, func(w *World, r *Rng, g f.Formula) {
		normalform.FactorizedCNFWithHandler(w.F, g, &CancelAt{N: r.Range(1, 6), Sticky: true})
	}},
	{"FactorizedDNF cancelled", false, func(w *World, r *Rng, g f.Formula) {
		normalform.FactorizedDNFWithHandler(w.F, g, &CancelAt{N: r.Range(1, 6), Sticky: true})
	}},
	{"AIG", false, func(w *World, r *Rng, g f.Formula) { normalform.AIG(w.F, g) }},
	{"predicates", true, func(w *World, r *Rng, g f.Formula) {
		normalform.IsNNF(w.F, g)
		normalform.IsCNF(w.F, g)
		normalform.IsDNF(w.F, g)
		normalform.IsAIG(w.F, g)
	}},
	{"print", true, func(w *World, r *Rng, g f.Formula) { _ = g.Sprint(w.F) }},
	{"functions", true, func(w *World, r *Rng, g f.Formula) {
		f.Variables(w.F, g)
		f.Literals(w.F, g)
		f.SubNodes(w.F, g)
		f.Depth(w.F, g)
		f.NumberOfAtoms(w.F, g)
		f.NumberOfNodes(w.F, g)
		f.VariableProfile(w.F, g)
		f.LiteralProfile(w.F, g)
	}},
	{"SAT", true, func(w *World, r *Rng, g f.Formula) { sat.IsSatisfiable(w.F, g) }},
	{"tautology", true, func(w *World, r *Rng, g f.Formula) { sat.IsTautology(w.F, g) }},
	{"solver", true, func(w *World, r *Rng, g f.Formula) {
		s := sat.NewSolver(w.F, randSatConfig(r))
		s.Add(g)
		st := s.SaveState()
		s.Add(w.F.Not(g))
		s.Sat()
		s.LoadState(st)
		s.Sat()
		s.FormulasOnSolver()
	}},
	{"backbone", true, func(w *World, r *Rng, g f.Formula) {
		s := sat.NewSolver(w.F)
		s.Add(g)
		s.ComputeBackbone(w.F, f.Variables(w.F, g).Content())
	}},
	{"BDD", false, func(w *World, r *Rng, g f.Formula) { bdd.Compile(w.F, g).ModelCount() }},
	{"BDD normal forms", false, func(w *World, r *Rng, g f.Formula) { bdd.CNF(w.F, g); bdd.DNF(w.F, g) }},
	{"BDD cancelled", false, func(w *World, r *Rng, g f.Formula) {
		bdd.CNFWithHandler(w.F, g, &CancelAt{N: r.Range(1, 8), Sticky: true})
		bdd.DNFWithHandler(w.F, g, &CancelAt{N: r.Range(1, 8), Sticky: true})
	}},
	{"BDD order", false, func(w *World, r *Rng, g f.Formula) {
		switch r.Intn(4) {
		case 0:
			bdd.BFSOrder(w.F, g)
		case 1:
			bdd.DFSOrder(w.F, g)
		case 2:
			bdd.MaxToMinOrder(w.F, g)
		case 3:
			bdd.MinToMaxOrder(w.F, g)
		}
	}},
	{"DNNF", false, func(w *World, r *Rng, g f.Formula) { dnnf.Compile(w.F, g).ModelCount() }},
	{"enumeration", true, func(w *World, r *Rng, g f.Formula) { enum.OnFormula(w.F, g, f.Variables(w.F, g).Content()) }},
	{"count", false, func(w *World, r *Rng, g f.Formula) { count.Count(w.F, w.Vars(), g) }},
	{"canonical", false, func(w *World, r *Rng, g f.Formula) { enum.CanonicalCNF(w.F, g); enum.CanonicalDNF(w.F, g) }},
	{"primes", false, func(w *World, r *Rng, g f.Formula) {
		primeimplicant.CoverMin(w.F, g, primeimplicant.CoverImplicants)
		primeimplicant.CoverMax(w.F, g, primeimplicant.CoverImplicates)
	}},
	{"simplify", false, func(w *World, r *Rng, g f.Formula) {
		switch r.Intn(6) {
		case 0:
			simplification.Advanced(w.F, g)
		case 1:
			simplification.FactorOut(w.F, g)
		case 2:
			simplification.Distribute(w.F, g)
		case 3:
			simplification.MinimizeNegations(w.F, g)
		case 4:
			simplification.PropagateUnits(w.F, g)
		case 5:
			simplification.PropagateBackbone(w.F, g)
		}
	}},
	{"simplify cancelled", false, func(w *World, r *Rng, g f.Formula) {
		simplification.AdvancedWithHandler(w.F, g, &CancelAt{N: r.Range(1, 12), Sticky: true})
	}},
	{"substitute", false, func(w *World, r *Rng, g f.Formula) {
		s := transformation.NewSubstitution()
		s.AddVar(w.vars[r.Intn(w.N)], w.Build(Gen(r, GenCfg{NV: w.N, Depth: 1, MaxOps: 2, Lit: 3, AndW: 1, OrW: 1})))
		transformation.Substitute(w.F, g, s)
		transformation.ExistentialQE(w.F, g, w.vars[r.Intn(w.N)])
		transformation.UniversalQE(w.F, g, w.vars[r.Intn(w.N)])
	}},
	{"restrict", true, func(w *World, r *Rng, g f.Formula) {
		a, _ := assignment.New(w.F, w.F.Lit(w.name[r.Intn(w.N)], r.Bool()))
		assignment.Restrict(w.F, g, a)
		assignment.Evaluate(w.F, g, a)
		assignment.EvaluatesToTrue(w.F, g, map[f.Variable]bool{w.vars[r.Intn(w.N)]: r.Bool()})
	}},
	{"graph", true, func(w *World, r *Rng, g f.Formula) { graph.GenerateConstraintGraph(w.F, g) }},
	{"parse", true, func(w *World, r *Rng, g f.Formula) { parser.New(w.F).Parse(g.Sprint(w.F)) }},
	{"encode", true, func(w *World, r *Rng, g f.Formula) {
		n := genCC(r, GenCfg{NV: w.N, MaxCC: 5, CCClean: true})
		encoding.EncodeCC(w.F, w.Build(n), randEncConfig(r))
		p := genPBC(r, GenCfg{NV: w.N, MaxCC: 4, MaxCoef: 4, CCClean: true})
		if x := w.Build(p); x.Sort() == f.SortPBC {
			encoding.EncodePBC(w.F, x, randEncConfig(r))
		}
		if n.Lits != nil {
			encoding.NegatePBC(w.F, w.Build(n))
		}
	}},
	{"build", true, func(w *World, r *Rng, g f.Formula) {
		c := stdCfg(r, w.N)
		c.CC, c.PB = 1, 1
		w.Build(Gen(r, c))
	}},
}

func randEncConfig(r *Rng) *encoding.Config {
	c := encoding.DefaultConfig()
	c.AMOEncoder = encoding.AMOEncoder(r.Intn(8))
	c.AMKEncoder = encoding.AMKEncoder(r.Intn(4))
	c.ALKEncoder = encoding.ALKEncoder(r.Intn(4))
	c.EXKEncoder = encoding.EXKEncoder(r.Intn(3))
	c.PBCEncoder = encoding.PBCEncoder(r.Intn(4))
	c.BimanderGroupSize = encoding.BimanderGroupSize(r.Intn(3))
	c.BimanderFixedGroupSize = r.Range(1, 5)
	c.NestingGroupSize = r.Range(3, 6)
	c.ProductRecursiveBound = r.Range(4, 20)
	c.CommanderGroupSize = r.Range(2, 5)
	c.BinaryMergeUseGAC = r.Bool()
	c.BinaryMergeNoSupportForSingleBit = r.Bool()
	c.BinaryMergeUseWatchDog = r.Bool()
	if r.P(10) { // a configuration that leaves some values out means the defaults
		c.BimanderFixedGroupSize = pick(r, 0, c.BimanderFixedGroupSize)
		c.NestingGroupSize = pick(r, 0, c.NestingGroupSize)
		c.ProductRecursiveBound = pick(r, 0, c.ProductRecursiveBound)
		c.CommanderGroupSize = pick(r, 0, c.CommanderGroupSize)
	}
	return c
}

func randSatConfig(r *Rng) *sat.Config {
	c := sat.DefaultConfig()
	c.CNFMethod = sat.CNFMethod(r.Intn(3))
	c.ClauseMinimization = sat.ClauseMinimization(r.Intn(3))
	c.InitialPhase = r.Bool()
	c.ProofGeneration = r.P(40)
	c.UseAtMostClauses = r.P(40)
	if r.P(40) {
		l := sat.DefaultLowLevelConfig()
		l.FirstReduceDB = r.Range(2, 50)
		l.IncReduceDB = r.Range(1, 20)
		l.SpecialIncReduceDB = r.Range(1, 20)
		l.RestartFirst = r.Range(1, 20)
		l.LBLBDMinimizingClause = r.Range(2, 30)
		l.LBSizeMinimizingClause = r.Range(2, 40)
		l.LBLBDFrozenClause = r.Range(2, 40)
		c.LowLevelConfig = l
	}
	return c
}

// pollute runs k random library operations on the factory over the given pool.
func pollute(c *Ctx, w *World, r *Rng, pool []f.Formula, pbFree func(f.Formula) bool, k int) {
	for i := 0; i < k; i++ {
		g := pool[r.Intn(len(pool))]
		op := libOps[r.Intn(len(libOps))]
		if !op.pb && !pbFree(g) {
			continue
		}
		c.Logf("pollute %s on %s", op.name, cut(g.Sprint(w.F), 200))
		op.run(w, r, g)
		c.Obs("workload: "+op.name, 1)
	}
}
