package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
)

func cfgName(c *sat.Config) string {
	l := c.LowLevelConfig
	return fmt.Sprintf("cnf=%d min=%d phase=%v proof=%v atmost=%v reduce=%d/%d/%d restart=%d bin=%d/%d frozen=%d", c.CNFMethod, c.ClauseMinimization,
		c.InitialPhase, c.ProofGeneration, c.UseAtMostClauses, l.FirstReduceDB, l.IncReduceDB, l.SpecialIncReduceDB, l.RestartFirst,
		l.LBLBDMinimizingClause, l.LBSizeMinimizingClause, l.LBLBDFrozenClause)
}

// hotSatConfig makes restarts, clause deletion and minimisation frequent.
func hotSatConfig(r *Rng) *sat.Config {
	c := randSatConfig(r)
	l := sat.DefaultLowLevelConfig()
	l.FirstReduceDB = r.Range(2, 30)
	l.IncReduceDB = r.Range(1, 10)
	l.SpecialIncReduceDB = r.Range(1, 10)
	l.SizeLBDQueue = r.Range(2, 20)
	l.SizeTrailQueue = r.Range(5, 100)
	l.LBLBDMinimizingClause = r.Range(2, 30)
	l.LBSizeMinimizingClause = r.Range(2, 40)
	l.LBLBDFrozenClause = r.Range(2, 40)
	l.FactorK = pick(r, 0.7, 0.8, 0.9, 1.0)
	l.ReduceOnSize = r.P(20)
	l.VarDecay = pick(r, 0.8, 0.95)
	l.ClauseDecay = pick(r, 0.9, 0.999)
	c.LowLevelConfig = l
	return c
}

// checkModel checks that a model assigns exactly the wanted variables.
func checkModelVars(c *Ctx, w *World, m *model.Model, want map[int]bool, what string) (mask, val uint64) {
	c.Check(m != nil, "%s: no model although one was requested", what)
	mask, val, err := w.LitsAsg(m.Literals)
	c.Check(err == "", "%s: model %s: %s", what, m.Sprint(w.F), err)
	for v := 0; v < w.N; v++ {
		c.Check((mask>>uint(v)&1 == 1) == want[v], "%s: model %s: variable %s is assigned=%v, expected %v", what, m.Sprint(w.F), w.name[v], mask>>uint(v)&1 == 1, want[v])
	}
	return
}

// knownIdx are the base variables known on the solver.
func knownIdx(w *World, s *sat.Solver) map[int]bool {
	out := map[int]bool{}
	for _, v := range s.CoreSolver().KnownVariables(w.F).Content() {
		n, _ := w.F.VarName(v)
		if i := w.Idx(n); i < w.N {
			out[i] = true
		}
	}
	return out
}

func p11Small(c *Ctx) {
	r := c.R
	nv := r.Range(1, 8)
	w := NewWorld(r, nv, r.P(20))
	sc := randSatConfig(r)
	if r.P(30) {
		sc = hotSatConfig(r)
	}
	var s *sat.Solver
	w.F.PutConfiguration(randEncConfig(r))
	switch r.Intn(3) {
	case 0:
		w.F.PutConfiguration(sc)
		s = sat.NewSolver(w.F)
	case 1:
		w.F.PutConfiguration(randSatConfig(r))
		s = sat.NewSolver(w.F, sc)
	default:
		s = sat.NewSolver(w.F, sc)
	}
	want := TTConst(nv, true)
	k := r.Range(0, 5)
	var added []string
	mentioned := map[int]bool{}
	for i := 0; i < k; i++ {
		var n *Node
		switch r.Intn(6) {
		case 0, 1:
			g := stdCfg(r, nv)
			n = Gen(r, g)
		case 2:
			g := stdCfg(r, nv)
			g.CC, g.PB, g.MaxCC = 3, 2, 8
			n = Gen(r, g)
		case 3:
			n = clausesNode(GenClauses(r, nv, r.Range(1, 3*nv), 1, 4))
		case 4:
			n = genCC(r, GenCfg{NV: nv, MaxCC: 8, CCClean: r.Bool()})
		default:
			n = genPBC(r, GenCfg{NV: nv, MaxCC: 6, MaxCoef: 5, CCClean: r.Bool()})
		}
		g := w.Build(n)
		if r.P(30) {
			s.AddProposition(f.NewStandardProposition(g, "p"))
		} else {
			s.Add(g)
		}
		t := n.TT(nv)
		want = want.And(t)
		for _, v := range w.VarIdxSet(f.Variables(w.F, g).Content()) {
			mentioned[v] = true
		}
		added = append(added, g.Sprint(w.F))
		c.Logf("add %s", added[len(added)-1])
	}
	what := fmt.Sprintf("solver (%s) with %s", cfgName(sc), cut(fmt.Sprint(added), 500))
	req := r.Subset(nv, pick(r, 100, 60, 30))
	known := knownIdx(w, s)
	for v := range known {
		c.Check(v < nv && mentioned[v], "%s knows variable %s which no formula contains", what, w.name[v])
	}
	wantVars := map[int]bool{}
	for _, v := range req {
		if known[v] {
			wantVars[v] = true
		}
	}
	res := s.Call(sat.WithModel(w.VarsOf(req)).WithUPZeros())
	c.Check(res.OK(), "%s: call without handler reports cancellation", what)
	c.Check(res.Sat() == !want.IsFalse(), "%s: satisfiable=%v but it has %d models", what, res.Sat(), want.Count())
	if !res.Sat() {
		c.Check(res.Model() == nil && res.UpZeroLits() == nil, "%s: unsatisfiable call with a model", what)
		c.Obs("unsatisfiable", 1)
	} else {
		mask, val := checkModelVars(c, w, res.Model(), wantVars, what)
		t := want
		for v := 0; v < nv; v++ {
			if mask>>uint(v)&1 == 1 {
				t = t.Cof(v, val>>uint(v)&1 == 1)
			}
		}
		c.Check(!t.IsFalse(), "%s: model %s does not extend to a satisfying assignment", what, res.Model().Sprint(w.F))
		for _, l := range res.UpZeroLits() {
			p := w.PLit(l)
			if p.V < nv {
				lt := TTVar(nv, p.V)
				if !p.Pos {
					lt = lt.Not()
				}
				c.Check(want.Implies(lt), "%s: literal %s is reported as implied but it is not", what, l.Sprint(w.F))
				c.Obs("implied literals", 1)
			}
		}
		c.Obs("satisfiable", 1)
	}
	// the answer does not depend on asking again
	c.Check(s.Sat() == !want.IsFalse(), "%s: second call differs", what)
	if len(added) > 0 && want.Count() > 0 && want.Count() < 1<<uint(nv) || want.IsFalse() {
		c.NT(what)
	}

	// predicates
	a, b := Gen(r, stdCfg(r, nv)), Gen(r, stdCfg(r, nv))
	if r.P(30) {
		g := stdCfg(r, nv)
		g.CC, g.PB = 3, 2
		b = Gen(r, g)
	}
	if r.P(30) {
		b = nOr(a, b)
	} else if r.P(30) {
		b = nNot(nNot(nAnd(a, nOr(a, b))))
	}
	fa, fb := w.Build(a), w.Build(b)
	ta, tb := a.TT(nv), b.TT(nv)
	pw := fmt.Sprintf("%s, %s", fa.Sprint(w.F), fb.Sprint(w.F))
	c.Check(sat.IsSatisfiable(w.F, fb) == !tb.IsFalse(), "IsSatisfiable wrong for %s", fb.Sprint(w.F))
	c.Check(sat.IsTautology(w.F, fb) == tb.IsTrue(), "IsTautology wrong for %s", fb.Sprint(w.F))
	c.Check(sat.IsContradiction(w.F, fb) == tb.IsFalse(), "IsContradiction wrong for %s", fb.Sprint(w.F))
	c.Check(sat.Implies(w.F, fa, fb) == ta.Implies(tb), "Implies wrong for %s", pw)
	c.Check(sat.IsEquivalent(w.F, fa, fb) == ta.Eq(tb), "IsEquivalent wrong for %s", pw)
	c.Obs("predicate pairs", 1)
}

// big instances: an abstract problem over many variables.
type bigProb struct {
	nv    int
	nodes []*Node
	name  string
}

func evalBig(n *Node, a []bool) bool {
	switch n.K {
	case KFalse:
		return false
	case KTrue:
		return true
	case KLit:
		return a[n.L.V] == n.L.Pos
	case KNot:
		return !evalBig(n.Ops[0], a)
	case KImpl:
		return !evalBig(n.Ops[0], a) || evalBig(n.Ops[1], a)
	case KEquiv:
		return evalBig(n.Ops[0], a) == evalBig(n.Ops[1], a)
	case KAnd:
		for _, o := range n.Ops {
			if !evalBig(o, a) {
				return false
			}
		}
		return true
	case KOr:
		for _, o := range n.Ops {
			if evalBig(o, a) {
				return true
			}
		}
		return false
	}
	sum := 0
	for i, l := range n.Lits {
		if a[l.V] == l.Pos {
			if n.K == KPBC {
				sum += n.Coefs[i]
			} else {
				sum++
			}
		}
	}
	return n.Cmp.Eval(sum, n.Rhs)
}

func clNode(cl []PLit) *Node {
	if len(cl) == 1 {
		return nLit(cl[0].V, cl[0].Pos)
	}
	n := &Node{K: KOr}
	for _, l := range cl {
		n.Ops = append(n.Ops, nLit(l.V, l.Pos))
	}
	return n
}

// genBig generates a hard-ish instance.
func genBig(r *Rng, scale int) *bigProb {
	p := &bigProb{}
	switch k := r.Intn(6); k {
	case 0, 1: // random k-SAT around the threshold
		p.nv = r.Range(20, 40+scale)
		ratio := r.Range(380, 460)
		for _, cl := range GenClauses(r, p.nv, p.nv*ratio/100, 3, 3) {
			p.nodes = append(p.nodes, clNode(cl))
		}
		p.name = fmt.Sprintf("random 3-SAT with %d variables, ratio %d%%", p.nv, ratio)
	case 2: // pigeon hole with some wrinkles
		n := r.Range(3, 5)
		m := n + r.Intn(2) // m pigeons, n holes
		p.nv = m * n
		at := func(i, j int) PLit { return PLit{i*n + j, true} }
		for i := 0; i < m; i++ {
			var cl []PLit
			for j := 0; j < n; j++ {
				cl = append(cl, at(i, j))
			}
			if r.P(50) {
				p.nodes = append(p.nodes, &Node{K: KCC, Cmp: EQ, Rhs: 1, Lits: cl})
			} else {
				p.nodes = append(p.nodes, clNode(cl))
			}
		}
		for j := 0; j < n; j++ {
			var cl []PLit
			for i := 0; i < m; i++ {
				cl = append(cl, at(i, j))
			}
			p.nodes = append(p.nodes, &Node{K: KCC, Cmp: LE, Rhs: 1, Lits: cl})
		}
		p.name = fmt.Sprintf("%d pigeons in %d holes", m, n)
	case 3: // parity chains
		p.nv = r.Range(8, 16+scale/3)
		for i := 0; i < p.nv+r.Intn(4); i++ {
			q := r.Perm(p.nv)
			x := nLit(q[0], r.Bool())
			for j := 1; j < r.Range(2, 4); j++ {
				x = &Node{K: KEquiv, Ops: []*Node{x, nLit(q[j], r.Bool())}}
			}
			p.nodes = append(p.nodes, x)
		}
		p.name = fmt.Sprintf("parity over %d variables", p.nv)
	case 4: // cardinality puzzles
		p.nv = r.Range(10, 20+scale/3)
		for i := 0; i < p.nv; i++ {
			n := genCC(r, GenCfg{NV: p.nv, MaxCC: r.Range(3, 9), CCClean: true})
			k := len(n.Lits)
			if n.Cmp == EQ || k < 3 {
				n.Cmp = pick(r, LE, GE, LT, GT)
			}
			if n.Cmp == LE || n.Cmp == LT {
				n.Rhs = r.Range((k+1)/2, k)
			} else {
				n.Rhs = r.Range(0, k/2)
			}
			p.nodes = append(p.nodes, n)
		}
		for _, cl := range GenClauses(r, p.nv, p.nv*r.Range(1, 3), 2, 4) {
			p.nodes = append(p.nodes, clNode(cl))
		}
		p.name = fmt.Sprintf("cardinality puzzle over %d variables", p.nv)
	default: // mixed structured formulas
		p.nv = r.Range(15, 30+scale)
		for i := 0; i < p.nv*2; i++ {
			g := stdCfg(r, p.nv)
			g.Depth, g.Consts, g.AndW, g.Lit, g.PB, g.MaxCC = r.Range(1, 2), 0, 2, 2, 1, 6
			p.nodes = append(p.nodes, nOr(nLit(r.Intn(p.nv), r.Bool()), Gen(r, g)))
		}
		p.name = fmt.Sprintf("mixed formulas over %d variables", p.nv)
	}
	return p
}

func (p *bigProb) ref() *RefEnc {
	e := NewRefEnc()
	for v := 0; v < p.nv; v++ {
		e.Var(v)
	}
	for _, n := range p.nodes {
		e.Assert(n)
	}
	return e
}

func p11Big(c *Ctx) {
	r := c.R
	scale := 60
	if c.Thorough {
		scale = 140
	}
	p := genBig(r, scale)
	w := NewWorldPlain(p.nv, r.P(10))
	sc := hotSatConfig(r)
	w.F.PutConfiguration(randEncConfig(r))
	s := sat.NewSolver(w.F, sc)
	what := fmt.Sprintf("%s on solver (%s)", p.name, cfgName(sc))
	if r.P(50) {
		for _, n := range p.nodes {
			s.Add(w.Build(n))
		}
	} else {
		var ops []f.Formula
		for _, n := range p.nodes {
			ops = append(ops, w.Build(n))
		}
		s.Add(w.F.And(ops...))
	}
	e := p.ref()
	want, ok := e.S.Solve()
	if !ok && false {
		c.Skip("reference budget")
	}
	rec := &CancelAt{Types: map[string]int{}}
	res := s.Call(sat.WithModel(w.Vars()).Handler(rec).WithUPZeros())
	c.Check(res.OK(), "%s: call reports cancellation", what)
	c.Check(res.Sat() == want, "%s: satisfiable=%v, expected %v", what, res.Sat(), want)
	if res.Sat() {
		known := map[int]bool{}
		for _, v := range s.CoreSolver().KnownVariables(w.F).Content() {
			n, _ := w.F.VarName(v)
			known[w.Idx(n)] = true
		}
		a := make([]bool, p.nv)
		seen := map[int]bool{}
		for _, l := range res.Model().Literals {
			q := w.PLit(l)
			c.Check(q.V < p.nv && !seen[q.V], "%s: model contains %s (foreign or twice)", what, l.Sprint(w.F))
			seen[q.V] = true
			a[q.V] = q.Pos
		}
		for v := 0; v < p.nv; v++ {
			c.Check(seen[v] == known[v], "%s: variable %s in model: %v, known: %v", what, w.name[v], seen[v], known[v])
		}
		for _, n := range p.nodes {
			c.Check(evalBig(n, a), "%s: model violates %s", what, w.Build(n).Sprint(w.F))
		}
		for _, l := range res.UpZeroLits() {
			q := w.PLit(l)
			if q.V < p.nv {
				other, _ := e.S.Solve(e.PL(q) ^ 1)
				c.Check(!other, "%s: literal %s is reported as implied but it is not", what, l.Sprint(w.F))
				c.Obs("implied literals", 1)
			}
		}
		c.Obs("large satisfiable", 1)
	} else {
		c.Obs("large unsatisfiable", 1)
	}
	conf := rec.Types["SAT Conflict Detected"]
	for k, n := range rec.Types {
		c.Obs("event: "+k, n)
	}
	if conf > 10 {
		c.NT(what)
	}
	if conf > sc.LowLevelConfig.FirstReduceDB {
		c.Obs("runs reaching clause deletion", 1)
	}
	// ask again, and with assumptions
	c.Check(s.Sat() == want, "%s: second call differs", what)
	for i := 0; i < 4; i++ {
		var asm []f.Literal
		var ra []int32
		for _, v := range r.Perm(p.nv)[:r.Range(1, min(5, p.nv))] {
			l := PLit{v, r.Bool()}
			asm = append(asm, w.Lit(l))
			ra = append(ra, e.PL(l))
		}
		exp, _ := e.S.Solve(ra...)
		got := s.Call(sat.WithAssumptions(asm)).Sat()
		c.Check(got == exp, "%s with assumptions %v: satisfiable=%v, expected %v", what, litStr(w, asm), got, exp)
		c.Obs("assumption calls", 1)
	}
}

func litStr(w *World, ls []f.Literal) string {
	out := ""
	for i, l := range ls {
		if i > 0 {
			out += ", "
		}
		out += l.Sprint(w.F)
	}
	return out
}

func p11Gen(c *Ctx) {
	r := c.R
	fac := f.NewFactory()
	s := sat.NewSolver(fac, hotSatConfig(r))
	if r.Bool() {
		n := r.Range(1, 6)
		s.Add(sat.GeneratePigeonHole(fac, n))
		c.Check(!s.Sat(), "pigeon hole %d is satisfiable", n)
		c.Obs("pigeon holes", 1)
		return
	}
	n := r.Range(3, 8)
	g := sat.GenerateNQueens(fac, n)
	s.Add(g)
	res := s.Call(sat.WithModel(f.Variables(fac, g).Content()))
	c.Check(res.Sat() == (n != 3), "%d queens: satisfiable=%v", n, res.Sat())
	if res.Sat() {
		qs := map[int]bool{}
		for _, v := range res.Model().PosVars() {
			name, _ := fac.VarName(v)
			var k int
			fmt.Sscanf(name, "v%d", &k)
			qs[k-1] = true
		}
		c.Check(len(qs) == n, "%d queens: model has %d queens", n, len(qs))
		for a := range qs {
			for b := range qs {
				if a < b {
					x, y := a/n-b/n, a%n-b%n
					c.Check(x != 0 && y != 0 && x != y && x != -y, "%d queens: queens %d and %d attack each other", n, a, b)
				}
			}
		}
	}
	c.Obs("queens", 1)
}

func runP11(c *Ctx) {
	if c.Idx%307 == 11 {
		wide11(c)
		return
	}
	switch x := c.R.Intn(100); {
	case x < 75:
		p11Small(c)
	case x < 97:
		p11Big(c)
	default:
		p11Gen(c)
	}
}

func init() {
	register(&PropDef{ID: "P11", Quick: 40000, Thorough: 600000, Run: runP11, CPU: 120,
		Rule: "random formula sets under random solver, encoder and low-level configurations; small ones judged by truth tables, larger ones (threshold 3-SAT, pigeon holes, parity, cardinality puzzles) by an independent CDCL reference",
		Need: []string{"satisfiable", "unsatisfiable", "implied literals", "large satisfiable", "large unsatisfiable", "runs reaching clause deletion", "assumption calls"},
	})
}

func init() {
	probe("atmost-basic-minimization", "P11", func(c *Ctx) {
		for k := 0; k < 1500; k++ {
			r := NewRng(7, "atmost-basic", k)
			n := r.Range(3, 5)
			w := NewWorldPlain(n*n, false)
			sc := sat.DefaultConfig()
			sc.UseAtMostClauses, sc.ClauseMinimization = true, sat.ClauseMinBasic
			s := sat.NewSolver(w.F, sc)
			e := NewRefEnc()
			add := func(x *Node) { s.Add(w.Build(x)); e.Assert(x) }
			for i := 0; i < n; i++ {
				var row, col []PLit
				for j := 0; j < n; j++ {
					row, col = append(row, PLit{i*n + j, true}), append(col, PLit{j*n + i, true})
				}
				add(clNode(row))
				add(&Node{K: KCC, Cmp: LE, Rhs: 1, Lits: col})
				add(&Node{K: KCC, Cmp: LE, Rhs: pick(r, 1, 2), Lits: row})
			}
			for i := 0; i < 6; i++ {
				var asm []f.Literal
				var ra []int32
				for _, v := range r.Perm(n * n)[:r.Range(1, n+1)] {
					l := PLit{v, r.Bool()}
					asm = append(asm, w.Lit(l))
					ra = append(ra, e.PL(l))
				}
				want, _ := e.S.Solve(ra...)
				c.Check(s.Call(sat.WithAssumptions(asm)).Sat() == want, "%dx%d board with at-most clauses and basic clause minimisation (variant %d), assumptions %s: expected satisfiable=%v", n, n, k, litStr(w, asm), want)
			}
		}
	})
}
