package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/errorx"
	"github.com/booleworks/logicng-go/explanation/mus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// p36err judges an error against what is documented for the input.
func p36err(c *Ctx, err error, bad bool, class error, format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	if !bad {
		c.Check(err == nil, "%s: rejected a suitable input: %v", what, err)
		c.Obs("suitable inputs accepted", 1)
		return
	}
	c.Check(err != nil, "%s: accepted an unsuitable input", what)
	if class != nil {
		c.Check(errors.Is(err, class), "%s: error %q is not of the class %q", what, err, class)
	}
	c.Obs("unsuitable inputs rejected with an error", 1)
}

// p36panic judges a call which has to panic for unsuitable input.
func p36panic(c *Ctx, bad bool, class error, fn func(), format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	p := caught(fn)
	if !bad {
		c.Check(p == nil, "%s: panics with a suitable input: %v", what, p)
		c.Obs("suitable inputs accepted", 1)
		return
	}
	c.Check(p != nil, "%s: accepted an unsuitable input", what)
	err, ok := p.(error)
	c.Check(ok && errors.Is(err, class), "%s: panic with %v, expected %q", what, p, class)
	c.Obs("unsuitable inputs rejected with a panic", 1)
}

func stats36(w *World) string {
	if s, ok := w.F.(interface{ Statistics() string }); ok {
		return s.Statistics()
	}
	return ""
}

// same36 runs fn and requires that the factory holds the same formulas after.
func same36(c *Ctx, w *World, what string, fn func()) {
	before := stats36(w)
	fn()
	c.Check(before != "" && before == stats36(w), "%s: the rejected call changed the factory from %s to %s", what, before, stats36(w))
}

func gen36(r *Rng, nv int) *Node {
	g := stdCfg(r, nv)
	g.Depth = r.Range(0, 3)
	if r.P(40) {
		g.CC, g.PB, g.MaxCC = 3, 2, 4
	}
	return Gen(r, g)
}

func runP36(c *Ctx) {
	ops := []struct {
		name string
		run  func(*Ctx)
	}{
		{"sorts", p36sorts}, {"assignments", p36assign}, {"encodings", p36encode}, {"incremental", p36incremental},
		{"graphs", p36graph}, {"bdd", p36bdd}, {"bdd", p36bdd}, {"readers", p36read}, {"maxsat", p36maxsat}, {"maxsat", p36maxsat},
		{"sat", p36sat}, {"transformations", p36trans}, {"explanations", p36explain}, {"values", p36values}, {"parser", p36parser},
	}
	op := ops[c.R.Intn(len(ops))]
	c.Obs("histories: "+op.name, 1)
	op.run(c)
}

func p36sorts(c *Ctx) {
	r := c.R
	w := NewWorld(r, r.Range(2, 6), r.P(20))
	fac := w.F
	var pool []f.Formula
	for i := r.Range(2, 8); i > 0; i-- {
		pool = append(pool, w.Build(gen36(r, w.N)))
	}
	pool = append(pool, fac.Verum(), fac.Falsum())
	for i := r.Range(4, 10); i > 0; i-- {
		g := pick(r, pool...)
		n := w.From(g)
		sort := g.Sort()
		switch r.Intn(8) {
		case 0:
			l, err := g.AsLiteral()
			p36err(c, err, n.K != KLit, errorx.ErrBadFormulaSort, "AsLiteral of %s", g.Sprint(fac))
			c.Check(n.K != KLit || w.PLit(l) == n.L, "AsLiteral of %s is another literal", g.Sprint(fac))
		case 1:
			v, err := g.AsVariable()
			bad := n.K != KLit || !n.L.Pos
			p36err(c, err, bad, errorx.ErrBadFormulaSort, "AsVariable of %s", g.Sprint(fac))
			c.Check(bad || v == w.Var(n.L.V), "AsVariable of %s is another variable", g.Sprint(fac))
		case 2:
			var ls []f.Literal
			bad := false
			var idx []int
			for k := r.Range(0, 5); k > 0; k-- {
				l := PLit{r.Intn(w.N), r.P(80)}
				bad = bad || !l.Pos
				ls = append(ls, w.Lit(l))
				idx = append(idx, l.V)
			}
			before := append([]f.Literal{}, ls...)
			vs, err := f.LiteralsAsVariables(ls)
			p36err(c, err, bad, errorx.ErrBadInput, "LiteralsAsVariables of %d literals", len(ls))
			c.Check(bad == (err != nil) && (!bad || len(vs) == 0), "LiteralsAsVariables returns an error and variables")
			for j := range vs {
				c.Check(vs[j] == w.Var(idx[j]), "LiteralsAsVariables changes the variable at %d", j)
			}
			for j := range ls {
				c.Check(ls[j] == before[j], "LiteralsAsVariables changes its argument")
			}
		case 3:
			s := f.FSort(r.Intn(10))
			d, err := f.DualSort(s)
			bad := s != f.SortAnd && s != f.SortOr
			p36err(c, err, bad, errorx.ErrBadFormulaSort, "DualSort of %s", s)
			c.Check(bad || d != s && (d == f.SortAnd || d == f.SortOr), "dual of %s is %s", s, d)
		case 4:
			s := f.FSort(r.Intn(10))
			var ops []f.Formula
			t := TTConst(w.N, s == f.SortAnd)
			for k := r.Range(0, 4); k > 0; k-- {
				o := pick(r, pool...)
				ops = append(ops, o)
				if s == f.SortAnd {
					t = t.And(w.TTOf(o))
				} else {
					t = t.Or(w.TTOf(o))
				}
			}
			bad := s != f.SortAnd && s != f.SortOr
			call := func() {
				h, err := fac.NaryOperator(s, ops...)
				p36err(c, err, bad, errorx.ErrBadFormulaSort, "NaryOperator %s", s)
				if !bad {
					c.EqTT(w.TTOf(h), t, "NaryOperator %s", s)
				}
			}
			if bad {
				same36(c, w, "NaryOperator", call)
			} else {
				call()
			}
		case 5:
			s := f.FSort(r.Intn(10))
			o := pick(r, pool...)
			bad := s != f.SortImpl && s != f.SortEquiv
			call := func() {
				h, err := fac.BinaryOperator(s, g, o)
				p36err(c, err, bad, errorx.ErrBadFormulaSort, "BinaryOperator %s", s)
				if s == f.SortImpl {
					c.EqTT(w.TTOf(h), w.TTOf(g).Not().Or(w.TTOf(o)), "BinaryOperator %s", s)
				} else if s == f.SortEquiv {
					c.EqTT(w.TTOf(h), w.TTOf(g).Equiv(w.TTOf(o)), "BinaryOperator %s", s)
				}
			}
			if bad {
				same36(c, w, "BinaryOperator", call)
			} else {
				call()
			}
		case 6: // accessors of other sorts
			_, okN := fac.NotOperand(g)
			c.Check(okN == (sort == f.SortNot), "NotOperand of %s: %v", g.Sprint(fac), okN)
			_, _, okB := fac.BinaryLeftRight(g)
			c.Check(okB == (sort == f.SortImpl || sort == f.SortEquiv), "BinaryLeftRight of %s: %v", g.Sprint(fac), okB)
			ops, okA := fac.NaryOperands(g)
			c.Check(okA == (sort == f.SortAnd || sort == f.SortOr) && okA == (len(ops) > 1), "NaryOperands of %s: %v", g.Sprint(fac), okA)
			_, _, ls, cs, okP := fac.PBCOps(g)
			c.Check(okP == (sort == f.SortCC || sort == f.SortPBC) && okP == (len(ls) > 0) && len(ls) == len(cs), "PBCOps of %s: %v", g.Sprint(fac), okP)
			name, phase, okL := fac.LiteralNamePhase(g)
			c.Check(okL == (sort == f.SortLiteral) && (!okL || n.L == PLit{w.Idx(name), phase}), "LiteralNamePhase of %s: %s %v %v", g.Sprint(fac), name, phase, okL)
			c.Obs("accessors asked", 5)
		default: // variables of another factory
			other := NewWorldPlain(r.Range(1, 20)*3, false)
			v := other.Var(other.N - 1)
			name, ok := fac.VarName(v)
			known := false
			for _, x := range w.Vars() {
				known = known || x == v
			}
			c.Check(!known || ok && name == v.Sprint(fac), "VarName of a known variable: %s %v", name, ok)
			c.Check(ok || name == "", "VarName of an unknown variable: %q", name)
		}
	}
	c.NT(fmt.Sprintf("sorts %d", c.R.U64()))
}

func p36assign(c *Ctx) {
	r := c.R
	w := NewWorld(r, r.Range(1, 8), r.P(20))
	fac := w.F
	n := gen36(r, w.N)
	g := w.Build(n)
	draw := func(k int) (ls []PLit) {
		for ; k > 0; k-- {
			ls = append(ls, PLit{r.Intn(w.N), r.Bool()})
		}
		return
	}
	contra := func(ls []PLit) bool {
		m := map[int]bool{}
		for _, l := range ls {
			if b, ok := m[l.V]; ok && b != l.Pos {
				return true
			}
			m[l.V] = l.Pos
		}
		return false
	}
	// whole lists at once
	for i := r.Range(1, 4); i > 0; i-- {
		ls := draw(r.Range(0, 5))
		mode := "assignment.New"
		var a *assignment.Assignment
		var err error
		if r.Bool() {
			a, err = assignment.New(fac, w.Lits(ls)...)
		} else {
			mode = "Model.Assignment"
			a, err = model.New(w.Lits(ls)...).Assignment(fac)
		}
		p36err(c, err, contra(ls), errorx.ErrBadInput, "%s of %v", mode, ls)
		c.Check((err == nil) == (a != nil), "%s of %v: assignment %v, error %v", mode, ls, a != nil, err)
	}
	a := assignment.Empty()
	m := map[int]bool{}
	var hist []PLit
	for _, l := range draw(r.Range(1, 12)) {
		b, ok := m[l.V]
		bad := ok && b != l.Pos
		hist = append(hist, l)
		p36err(c, a.AddLit(fac, w.Lit(l)), bad, errorx.ErrBadInput, "adding the literals %v to an assignment", hist)
		if !bad {
			m[l.V] = l.Pos
		}
		c.Check(a.Size() == len(m), "after adding %v the assignment has %d variables, expected %d", hist, a.Size(), len(m))
		pos, neg := []int{}, []int{}
		asg := uint64(0)
		for v, b := range m {
			if b {
				pos = append(pos, v)
				asg |= 1 << uint(v)
			} else {
				neg = append(neg, v)
			}
		}
		c.Check(eqInts(w.VarIdxSet(a.PosVars()), sortedInts(pos)), "after adding %v: positive variables %v, expected %v", hist, w.VarIdxSet(a.PosVars()), pos)
		c.Check(eqInts(w.VarIdxSet(a.NegVars()), sortedInts(neg)), "after adding %v: negative variables %v, expected %v", hist, w.VarIdxSet(a.NegVars()), neg)
		if len(m) == w.N {
			got := assignment.Evaluate(fac, g, a)
			c.Check(got == n.Eval(asg), "after adding %v: %s evaluates to %v", hist, g.Sprint(fac), got)
		}
		c.Obs("assignment states compared", 1)
	}
	c.NT(fmt.Sprintf("asg %v", hist))
}

func p36encode(c *Ctx) {
	r := c.R
	w := NewWorld(r, r.Range(2, 6), r.P(20))
	fac := w.F
	cfg := randEncConfig(r)
	for i := r.Range(2, 5); i > 0; i-- {
		g := w.Build(gen36(r, w.N))
		if r.Bool() {
			k := genCC(r, GenCfg{NV: w.N, MaxCC: 4})
			if r.P(40) {
				k = genPBC(r, GenCfg{NV: w.N, MaxCC: 4, MaxCoef: 3, CCClean: true})
			}
			g = w.Build(k)
		}
		pb := r.Bool()
		bad := g.Sort() != f.SortCC && !(pb && g.Sort() == f.SortPBC)
		rec := &recResult{fac: fac}
		var err error
		var fs []f.Formula
		call := func() {
			switch k := r.Intn(2); {
			case pb && k == 0:
				fs, err = encoding.EncodePBC(fac, g, cfg)
			case pb:
				err = encoding.EncodePBCInResult(fac, g, rec, cfg)
			case k == 0:
				fs, err = encoding.EncodeCC(fac, g, cfg)
			default:
				err = encoding.EncodeCCInResult(fac, g, rec, cfg)
			}
			p36err(c, err, bad, errorx.ErrBadFormulaSort, "encoding %s (constraints with coefficients: %v)", g.Sprint(fac), pb)
		}
		if !bad {
			call()
			continue
		}
		same36(c, w, "encoding "+g.Sprint(fac), call)
		c.Check(len(fs) == 0 && len(rec.clauses) == 0, "encoding %s: an error and %d formulas, %d clauses", g.Sprint(fac), len(fs), len(rec.clauses))
	}
	c.NT(fmt.Sprintf("enc %d", r.U64()))
}

// p36incremental: bounds which do not tighten are refused and change nothing.
func p36incremental(c *Ctx) {
	r := c.R
	nv := r.Range(3, 7)
	w := NewWorld(r, nv, false)
	fac := w.F
	cfg := randEncConfig(r)
	upper := r.Bool()
	m := r.Range(3, nv)
	sub := r.Perm(nv)[:m]
	bound := r.Range(2, m-1)
	cmp := LE
	if !upper {
		cmp = GE
	} else if r.Bool() {
		bound = m - 1
	}
	fac.PutConfiguration(cfg)
	if r.P(15) { // exactly k has no incremental form
		g := fac.CC(f.EQ, uint32(r.Range(0, m+1)), w.VarsOf(sub)...)
		rec := &recResult{fac: fac}
		if g.Sort() == f.SortCC {
			d, err := encoding.EncodeIncremental(fac, g, rec)
			p36err(c, err, true, errorx.ErrBadInput, "incremental %s", g.Sprint(fac))
			c.Check(d == nil && len(rec.clauses) == 0, "incremental %s: data %v, %d clauses", g.Sprint(fac), d != nil, len(rec.clauses))
			s := sat.NewSolver(fac)
			d, err = s.AddIncrementalCC(g)
			p36err(c, err, true, errorx.ErrBadInput, "incremental %s on a solver", g.Sprint(fac))
			c.Check(d == nil && s.Sat(), "incremental %s refused, but on the solver", g.Sprint(fac))
		}
		return
	}
	g := fac.CC(csorts[cmp], uint32(bound), w.VarsOf(sub)...)
	what := fmt.Sprintf("%s (%s)", g.Sprint(fac), encName(cfg))
	var data *encoding.CCIncrementalData
	var err error
	var s *sat.Solver
	rec := &recResult{fac: fac}
	if r.Bool() {
		sc := randSatConfig(r)
		sc.UseAtMostClauses = false
		s = sat.NewSolver(fac, sc)
		data, err = s.AddIncrementalCC(g)
	} else {
		data, err = encoding.EncodeIncremental(fac, g, rec)
	}
	p36err(c, err, false, nil, "incremental %s", what)
	hist := []int{bound}
	for i := r.Range(1, 5); i > 0; i-- {
		nb := r.Range(0, m)
		bad := upper && nb >= bound || !upper && nb <= bound
		nc := len(rec.clauses)
		hist = append(hist, nb)
		p36panic(c, bad, errorx.ErrBadInput, func() {
			switch k := r.Intn(2); {
			case upper && (k == 0 || s != nil):
				data.NewUpperBoundForSolver(nb)
			case upper:
				data.NewUpperBound(nb)
			case k == 0 || s != nil:
				data.NewLowerBoundForSolver(nb)
			default:
				data.NewLowerBound(nb)
			}
		}, "%s with bounds %v", what, hist)
		if !bad {
			bound = nb
		}
		c.Check(!bad || len(rec.clauses) == nc, "%s with bounds %v: the refused bound added clauses", what, hist)
	}
	want := TTConst(nv, false)
	for a := uint64(0); a < 1<<uint(nv); a++ {
		k := 0
		for _, v := range sub {
			k += int(a >> uint(v) & 1)
		}
		if upper && k <= bound || !upper && k >= bound {
			want.Set(a)
		}
	}
	if s == nil {
		var fs []f.Formula
		for _, cl := range rec.clauses {
			fs = append(fs, fac.Clause(cl...))
		}
		s = sat.NewSolver(fac)
		s.Add(fs...)
	}
	for a := uint64(0); a < 1<<uint(nv); a++ {
		var ls []f.Literal
		for v := 0; v < nv; v++ {
			ls = append(ls, w.Lit(PLit{v, a>>uint(v)&1 == 1}))
		}
		got := s.Call(sat.Params().Literal(ls...)).Sat()
		c.Check(got == want.Get(a), "%s with bounds %v: assignment %b accepted=%v", what, hist, a, got)
	}
	c.Obs("bounds compared after refused ones", 1)
	c.NT(what + fmt.Sprint(hist))
}

func p36graph(c *Ctx) {
	r := c.R
	w := NewWorld(r, r.Range(2, 7), r.P(20))
	fac := w.F
	var fs []f.Formula
	kind := r.Intn(3)
	for i := r.Range(1, 5); i > 0; i-- {
		n := gen36(r, w.N)
		if kind != 1 && n.HasPB() {
			n = Gen(r, stdCfg(r, w.N))
		}
		if kind == 0 && r.Bool() {
			n = nOr(nLit(r.Intn(w.N), r.Bool()), nLit(r.Intn(w.N), r.Bool()))
		}
		fs = append(fs, w.Build(n))
	}
	switch kind {
	case 0: // hypergraph
		cnf := fac.And(fs...)
		if r.Bool() {
			cnf = normalform.FactorizedCNF(fac, cnf)
		}
		bad := !isCNF36(w.From(cnf))
		h, err := graph.HypergraphFromCNF(fac, cnf)
		p36err(c, err, bad, errorx.ErrBadInput, "hypergraph of %s", cnf.Sprint(fac))
		c.Check(bad == (h == nil), "hypergraph of %s: %v %v", cnf.Sprint(fac), h != nil, err)
		h, err = graph.HypergraphFromClauses(fac, fs...)
		bad = false
		for _, g := range fs {
			n := w.From(g)
			bad = bad || !(n.K == KLit || n.K == KOr && isCNF36(n))
		}
		if !hasConst36(w, fs) {
			p36err(c, err, bad, errorx.ErrBadInput, "hypergraph of %d clauses", len(fs))
			c.Check(bad == (h == nil), "hypergraph of clauses: %v %v", h != nil, err)
		}
	case 1: // components
		cg := graph.GenerateConstraintGraph(fac, fs...)
		comps := graph.ComputeConnectedComponents(cg)
		drop := len(comps) > 0 && r.P(60)
		if drop {
			i := r.Intn(len(comps))
			comps = append(append([][]f.Variable{}, comps[:i]...), comps[i+1:]...)
		}
		have := map[f.Variable]bool{}
		for _, k := range comps {
			for _, v := range k {
				have[v] = true
			}
		}
		bad := false
		for _, g := range fs {
			for _, v := range f.Variables(fac, g).Content() {
				bad = bad || !have[v]
			}
		}
		p36panic(c, bad, errorx.ErrBadInput, func() { graph.SplitFormulasByComponent(fac, fs, comps) }, "splitting %d formulas by %d components", len(fs), len(comps))
	default: // subsumption
		g := fac.And(fs...)
		if r.Bool() {
			g = fac.Or(fs...)
		}
		if r.Bool() {
			if r.Bool() {
				g = normalform.FactorizedCNF(fac, g)
			} else {
				g = normalform.FactorizedDNF(fac, g)
			}
		}
		n := w.From(g)
		h, err := simplification.CNFSubsumption(fac, g)
		p36err(c, err, !isCNF36(n), errorx.ErrBadInput, "CNF subsumption of %s", g.Sprint(fac))
		if err == nil {
			c.EqTT(w.TTOf(h), n.TT(w.N), "CNF subsumption of %s", g.Sprint(fac))
		}
		h, err = simplification.DNFSubsumption(fac, g)
		p36err(c, err, !isDNF36(n), errorx.ErrBadInput, "DNF subsumption of %s", g.Sprint(fac))
		if err == nil {
			c.EqTT(w.TTOf(h), n.TT(w.N), "DNF subsumption of %s", g.Sprint(fac))
		}
	}
	c.NT(fmt.Sprintf("graph %d", r.U64()))
}

func hasConst36(w *World, fs []f.Formula) bool {
	for _, g := range fs {
		if g.Sort() <= f.SortTrue {
			return true
		}
	}
	return false
}

// isNF36 is the definition of conjunctive and disjunctive normal form.
func isNF36(n *Node, outer, inner int) bool {
	lits := func(o *Node) bool {
		for _, x := range o.Ops {
			if x.K != KLit {
				return false
			}
		}
		return true
	}
	switch {
	case n.K == KTrue || n.K == KFalse || n.K == KLit:
		return true
	case int(n.K) == inner:
		return lits(n)
	case int(n.K) == outer:
		for _, o := range n.Ops {
			if o.K != KLit && !(int(o.K) == inner && lits(o)) {
				return false
			}
		}
		return true
	}
	return false
}
func isCNF36(n *Node) bool { return isNF36(n, int(KAnd), int(KOr)) }
func isDNF36(n *Node) bool { return isNF36(n, int(KOr), int(KAnd)) }

// p36bdd: BDDs of two kernels are never mixed, and unknown variables and
// contradictions are refused; every BDD keeps its meaning.
func p36bdd(c *Ctx) {
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, false)
	fac := w.F
	type held struct {
		b *bdd.BDD
		t TT
		k int
	}
	var ks []*bdd.Kernel
	known := []map[int]bool{{}, {}}
	capa := []int{}
	for i := 0; i < 2; i++ {
		size := int32(pick(r, 1, 10, 100, 1000))
		if r.Bool() {
			p := r.Perm(nv)
			if r.Bool() {
				p = p[:r.Range(1, nv)]
			}
			ks = append(ks, bdd.NewKernelWithOrdering(fac, w.VarsOf(p), size, size))
			for _, v := range p {
				known[i][v] = true
			}
			capa = append(capa, len(p))
		} else {
			n := r.Range(1, nv+1)
			ks = append(ks, bdd.NewKernel(fac, int32(n), size, size))
			capa = append(capa, n)
		}
	}
	var hs []held
	var hist []string
	logf := func(s string, a ...any) {
		hist = append(hist, fmt.Sprintf(s, a...))
		c.Logf(s, a...)
	}
	last := func() string { return strings.Join(hist, "; ") }
	order := func(h held) string {
		s := ""
		for _, v := range h.b.VariableOrder() {
			s += v.Sprint(fac) + " "
		}
		return s
	}
	for i := r.Range(6, 14); i > 0; i-- {
		kind := r.Intn(6)
		if len(hs) == 0 {
			kind = 0
		}
		switch kind {
		case 0, 1:
			k := r.Intn(2)
			g := stdCfg(r, nv)
			g.Depth = r.Range(0, 3)
			n := Gen(r, g)
			x := w.Build(n)
			logf("compile %s on kernel %d", x.Sprint(fac), k)
			free := capa[k] - len(known[k])
			need := 0
			for _, v := range f.Variables(fac, x).Content() {
				if !known[k][w.Idx(v.Sprint(fac))] {
					need++
				}
			}
			var b *bdd.BDD
			p36panic(c, need > free, errorx.ErrIllegalState, func() { b = bdd.CompileWithKernel(fac, x, ks[k]) }, "%s", last())
			for _, v := range f.Variables(fac, x).Content() {
				if _, err := ks[k].IndexForVariable(v); err == nil {
					known[k][w.Idx(v.Sprint(fac))] = true
				}
			}
			if b != nil {
				hs = append(hs, held{b, n.TT(nv), k})
			}
		case 2:
			x, y := pick(r, hs...), pick(r, hs...)
			op := r.Intn(5)
			name := []string{"and", "or", "implies", "implied by", "equivalence"}[op]
			logf("%s of a BDD of kernel %d and one of kernel %d", name, x.k, y.k)
			var b *bdd.BDD
			p36panic(c, x.k != y.k, errorx.ErrBadInput, func() {
				b = []func(*bdd.BDD) *bdd.BDD{x.b.And, x.b.Or, x.b.Implies, x.b.ImpliedBy, x.b.Equivalence}[op](y.b)
			}, "%s", last())
			if b != nil {
				t := []TT{x.t.And(y.t), x.t.Or(y.t), x.t.Not().Or(y.t), y.t.Not().Or(x.t), x.t.Equiv(y.t)}[op]
				hs = append(hs, held{b, t, x.k})
			}
		case 3:
			x := pick(r, hs...)
			logf("model")
			bad := x.t.IsFalse()
			m, err := x.b.Model()
			p36err(c, err, bad, errorx.ErrBadInput, "%s", last())
			c.Check(bad == (m == nil), "%s: model %v, error %v", last(), m != nil, err)
			m, err = x.b.FullModel()
			p36err(c, err, bad, errorx.ErrBadInput, "%s (full)", last())
			c.Check(bad == (m == nil), "%s: model %v, error %v", last(), m != nil, err)
			m, err = x.b.ModelWithVariables(r.Bool(), w.VarsOf(sortedKeys(known[x.k]))...)
			p36err(c, err, bad, errorx.ErrBadInput, "%s (with variables)", last())
			c.Check(bad == (m == nil), "%s: model %v, error %v", last(), m != nil, err)
		case 4:
			k, a, b := r.Intn(2), r.Intn(nv), r.Intn(nv)
			logf("swap %d and %d on kernel %d", a, b, k)
			bad := !known[k][a] || !known[k][b]
			before := ""
			for _, h := range hs {
				if h.k == k {
					before = order(h)
				}
			}
			err := ks[k].SwapVariables(w.Var(a), w.Var(b))
			p36err(c, err, bad, errorx.ErrBadInput, "%s", last())
			for _, h := range hs {
				if h.k == k {
					c.Check((before == order(h)) == (bad || a == b), "%s: order before %s, after %s", last(), before, order(h))
				}
			}
		default:
			k, a := r.Intn(2), r.Intn(nv)
			logf("index of %d on kernel %d", a, k)
			idx, err := ks[k].IndexForVariable(w.Var(a))
			p36err(c, err, !known[k][a], errorx.ErrBadInput, "%s", last())
			c.Check((idx >= 0) == known[k][a], "%s: index %d", last(), idx)
		}
	}
	for i, h := range hs {
		g := h.b.ToFormula(fac)
		c.EqTT(w.TTOf(g), h.t, "%s: BDD %d is %s", last(), i, g.Sprint(fac))
		c.Check(h.b.IsContradiction() == h.t.IsFalse() && h.b.IsTautology() == h.t.IsTrue(), "%s: BDD %d: constant?", last(), i)
		c.Obs("BDDs compared after rejected calls", 1)
	}
	c.NT(last())
}

// p36read: the readers of DIMACS text refuse exactly the text they document.
func p36read(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "lng36")
	c.Check(err == nil, "scratch directory: %v", err)
	defer os.RemoveAll(dir)
	nv := r.Range(1, 5)
	w := NewWorldPlain(nv+1, false)
	w.idx = map[string]int{}
	for i := range w.name {
		w.idx[w.name[i]] = i
	}
	wcnf := r.Bool()
	maxs := wcnf || r.Bool()
	top := r.Range(5, 9)
	var lists [][]int
	for i := r.Range(0, 5); i > 0; i-- {
		var l []int
		if wcnf {
			l = append(l, pick(r, top, r.Range(1, 4)))
		}
		for k := r.Range(0, 3); k > 0; k-- {
			x := r.Range(1, nv)
			if r.Bool() {
				x = -x
			}
			l = append(l, x)
		}
		lists = append(lists, l)
	}
	header := fmt.Sprintf("p cnf %d %d", nv, len(lists))
	if wcnf {
		header = fmt.Sprintf("p wcnf %d %d %d", nv, len(lists), top)
	}
	headerBad := false
	if maxs && r.P(20) {
		headerBad = true
		header = pick(r, "", "1 2 0", "p", "p dnf 3 4", "cnf 3 4", "q cnf 3 4", "p  mcnf 1 1", "h wcnf 1 1 1")
		if header == "" && len(lists) > 0 && wcnf == false {
			lists[0] = append([]int{1}, lists[0]...)
		}
	}
	text := layout(r, header, lists, true)
	bad := headerBad
	how := ""
	switch r.Intn(5) {
	case 0: // a token which is no number
		tok := pick(r, "x", "1x", "--1", "1-", "0x1", "1.0", "1e1", "v1", "&", "99999999999999999999999", "+", "-", "½")
		how, bad = "token "+tok, true
		text = strings.TrimRight(text, " \t\r\n") + "\n" + pick(r, "1 ", "") + tok + " 0\n"
	case 1: // the last clause is not closed
		how, bad = "open clause", true
		text = strings.TrimRight(text, " \t\r\n") + "\n" + pick(r, "1", "1 -1", "2 1") + pick(r, "", "\n", "\nc comment 0", " \n\n")
	case 2:
		if wcnf && len(lists) > 0 && !headerBad {
			how, bad = "weight", true
			text = strings.TrimRight(text, " \t\r\n") + "\n" + pick(r, "0", "-1", "-100") + " 1 0\n"
		}
	}
	name := filepath.Join(dir, "x.cnf")
	c.Check(os.WriteFile(name, []byte(text), 0o600) == nil, "cannot write")
	if maxs {
		s := maxsat.LinearSU(w.F)
		err = maxsat.ReadDimacsToSolver(w.F, s, name)
		p36err(c, err, bad, nil, "MaxSAT reader (%s) on %q", how, text)
		c.Obs("MaxSAT texts read", 1)
	} else {
		out, err := lio.ReadDimacs(w.F, name)
		p36err(c, err, bad, errorx.ErrBadInput, "DIMACS reader (%s) on %q", how, text)
		c.Check(bad == (out == nil), "DIMACS reader (%s) on %q: clauses %v and error %v", how, text, out != nil, err)
		if !bad {
			c.Check(len(*out) == len(lists), "DIMACS reader on %q: %d clauses, expected %d", text, len(*out), len(lists))
		}
		c.Obs("DIMACS texts read", 1)
	}
	_, err = lio.ReadDimacs(w.F, filepath.Join(dir, "missing.cnf"))
	p36err(c, err, true, nil, "DIMACS reader on a missing file")
	err = maxsat.ReadDimacsToSolver(w.F, maxsat.OLL(w.F), filepath.Join(dir, "missing.cnf"))
	p36err(c, err, true, nil, "MaxSAT reader on a missing file")
	// writing what is not in CNF
	n := gen36(r, nv)
	g := w.Build(n)
	var sb strings.Builder
	m, err := lio.WriteDimacsToWriter(w.F, &sb, g)
	isc := isCNF36(w.From(g))
	p36err(c, err, !isc, errorx.ErrBadInput, "writing %s", g.Sprint(w.F))
	c.Check(isc == (m != nil) && isc == (sb.Len() > 0), "writing %s: map %v, %d bytes, error %v", g.Sprint(w.F), m != nil, sb.Len(), err)
	c.NT(text)
}

// p36maxsat: refused weights, states and problems leave the solver usable.
func p36maxsat(c *Ctx) {
	r := c.R
	nv := r.Range(2, 4)
	w := NewWorld(r, nv, r.P(20))
	h := newMX(c, w, pick(r, mxAlgs...))
	foreign := newMX(c, w, pick(r, mxAlgs...))
	var solved bool
	type pt struct {
		st         *maxsat.SolverState
		hard, soft int
	}
	var states []pt
	var dead []*maxsat.SolverState
	small := func() *Node {
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 2)
		return Gen(r, g)
	}
	for i := r.Range(4, 12); i > 0; i-- {
		switch r.Intn(8) {
		case 0:
			h.addHard(small())
		case 1, 2:
			wt := 1
			if h.s.SupportsWeighted() && r.P(60) || r.P(10) {
				wt = r.Range(1, 5)
			}
			h.addSoft(small(), wt)
		case 3:
			bad := pick(r, 0, -1, -2, -100, -1<<31, -1<<62)
			var err error
			g := w.Build(small())
			same36(c, w, "soft formula", func() { err = h.s.AddSoftFormula(g, bad) })
			p36err(c, err, true, errorx.ErrBadInput, "%s: soft formula of weight %d", h.what(), bad)
		case 4:
			states = append(states, pt{h.s.SaveState(), len(h.hard), len(h.soft)})
		case 5:
			if len(states) > 0 {
				k := r.Intn(len(states))
				p := states[k]
				p36err(c, h.s.LoadState(p.st), false, nil, "%s: load state", h.what())
				for _, d := range states[k+1:] {
					dead = append(dead, d.st)
				}
				states = states[:k+1]
				h.hard, h.soft = h.hard[:p.hard], h.soft[:p.soft]
			}
		case 6:
			if len(dead) > 0 {
				p36err(c, h.s.LoadState(pick(r, dead...)), true, errorx.ErrBadInput, "%s: load a state which is not valid", h.what())
			}
		default:
			p36solve(c, h)
			solved = true
		}
	}
	_ = foreign
	p36solve(c, h)
	if !h.supported() && len(states) > 0 { // the problem before is solvable
		p := states[0]
		p36err(c, h.s.LoadState(p.st), false, nil, "%s: load state", h.what())
		h.hard, h.soft = h.hard[:p.hard], h.soft[:p.soft]
		p36solve(c, h)
		c.Obs("states loaded after a refused problem", 1)
	}
	if solved {
		c.Obs("histories with more than one solve", 1)
	}
	c.NT(fmt.Sprintf("%s %d", h.what(), r.U64()))
}

func p36solve(c *Ctx, h *MX) {
	bad := !h.supported()
	if h.alg == maxsat.AlgWMSU3 && !bad { // known findings of its own
		return
	}
	var res maxsat.Result
	p36panic(c, bad, errorx.ErrBadInput, func() { res = h.s.Solve() }, "%s: solve a problem with weights: %v", h.what(), h.weighted())
	if bad {
		return
	}
	best := -1
	for a := uint64(0); a < 1<<uint(h.nv); a++ {
		ok := true
		for _, n := range h.hard {
			ok = ok && n.Eval(a)
		}
		if !ok {
			continue
		}
		cost := 0
		for _, s := range h.soft {
			if !s.n.Eval(a) {
				cost += s.w
			}
		}
		if best < 0 || cost < best {
			best = cost
		}
	}
	c.Check(res.Satisfiable == (best >= 0), "%s: satisfiable %v, minimum cost %d", h.what(), res.Satisfiable, best)
	if best >= 0 {
		c.Check(res.Optimum == best, "%s: optimum %d, expected %d", h.what(), res.Optimum, best)
	}
	c.Obs("optima compared after rejected calls", 1)
}

// p36sat: refused core computations and states leave the solver as it was.
func p36sat(c *Ctx) {
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	cfg := randSatConfig(r)
	cfg.ProofGeneration = r.P(30)
	s := sat.NewSolver(fac, cfg)
	t := TTConst(nv, true)
	type pt struct {
		st *sat.SolverState
		t  TT
	}
	var states []pt
	var dead []*sat.SolverState
	var hist []string
	for i := r.Range(4, 12); i > 0; i-- {
		switch r.Intn(6) {
		case 0, 1:
			n := gen36(r, nv)
			hist = append(hist, "add "+n.String())
			s.Add(w.Build(n))
			t = t.And(n.TT(nv))
		case 2:
			n := gen36(r, nv)
			hist = append(hist, "core with "+n.String())
			p := sat.Params().WithCore().Formula(w.Build(n))
			p36panic(c, !cfg.ProofGeneration, errorx.ErrIllegalState, func() {
				res := s.Call(p)
				if res.Sat() == t.And(n.TT(nv)).IsFalse() {
					panic("wrong answer")
				}
			}, "%v", hist)
		case 3:
			hist = append(hist, "save")
			if !cfg.ProofGeneration {
				states = append(states, pt{s.SaveState(), t})
			}
		case 4:
			if len(states) > 0 {
				hist = append(hist, "load")
				k := r.Intn(len(states))
				p36err(c, s.LoadState(states[k].st), false, nil, "%v", hist)
				for _, d := range states[k+1:] {
					dead = append(dead, d.st)
				}
				t = states[k].t
				states = states[:k+1]
			}
		default:
			if len(dead) > 0 {
				hist = append(hist, "load dead")
				p36err(c, s.LoadState(pick(r, dead...)), true, errorx.ErrBadInput, "%v", hist)
			}
		}
		if r.P(50) {
			var ls []f.Literal
			want := t
			for k := r.Range(0, nv); k > 0; k-- {
				l := PLit{r.Intn(nv), r.Bool()}
				ls = append(ls, w.Lit(l))
				x := TTVar(nv, l.V)
				if !l.Pos {
					x = x.Not()
				}
				want = want.And(x)
			}
			got := s.Call(sat.Params().Literal(ls...)).Sat()
			c.Check(got != want.IsFalse(), "%v: satisfiable %v", hist, got)
			c.Obs("answers compared after rejected calls", 1)
		}
	}
	c.Check(s.Sat() != t.IsFalse(), "%v: satisfiable at the end", hist)
	c.NT(strings.Join(hist, ";"))
}

func p36trans(c *Ctx) {
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	n := gen36(r, nv)
	if r.P(70) { // constraints more often
		n = nAnd(n, genPBC(r, GenCfg{NV: nv, MaxCC: 4, MaxCoef: 3, CCClean: true}))
	}
	g := w.Build(n)
	switch r.Intn(3) {
	case 0: // only literals and constants can be put into a constraint
		subs := transformation.NewSubstitution()
		m := map[int]*Node{}
		for _, v := range r.Perm(nv)[:r.Range(1, nv)] {
			x := gen36(r, nv)
			if r.Bool() {
				x = nLit(r.Intn(nv), r.Bool())
			}
			m[v] = w.From(w.Build(x))
			subs.AddVar(w.Var(v), w.Build(x))
		}
		bad := false
		for _, k := range constraintsOf(w.From(g)) {
			for _, l := range k.Lits {
				if x, ok := m[l.V]; ok && x.K != KLit && x.K != KTrue && x.K != KFalse {
					bad = true
				}
			}
		}
		// a conjunction can become false before the constraint is reached
		h, err := transformation.Substitute(fac, g, subs)
		if bad {
			if err == nil { // allowed only where the constraint was not needed
				c.Check(false, "substitution of a formula in %s accepted: %s", g.Sprint(fac), h.Sprint(fac))
			}
			p36err(c, err, true, errorx.ErrBadInput, "substitution in %s", g.Sprint(fac))
		} else {
			p36err(c, err, false, nil, "substitution in %s", g.Sprint(fac))
		}
	case 1: // expansion
		bad := false
		for _, k := range constraintsOf(w.From(g)) {
			bad = bad || k.K == KPBC || !(k.Rhs == 1 && (k.Cmp == LE || k.Cmp == EQ) || k.Rhs == 2 && k.Cmp == LT)
		}
		h, err := transformation.ExpandAMOAndEXO(fac, g)
		p36err(c, err, bad, errorx.ErrBadInput, "expansion of %s", g.Sprint(fac))
		if err == nil {
			c.EqTT(w.TTOf(h), n.TT(nv), "expansion of %s", g.Sprint(fac))
		}
	default: // counting over too few variables
		if hasGeneralPB(n) {
			n = nLit(0, true)
			g = w.Build(n)
		}
		need := w.VarIdxSet(f.Variables(fac, g).Content())
		idx := r.Subset(nv, 85)
		have := map[int]bool{}
		for _, v := range idx {
			have[v] = true
		}
		bad := false
		for _, v := range need {
			bad = bad || !have[v]
		}
		var err error
		p36panic(c, bad, errorx.ErrBadInput, func() {
			_, err = count.Count(fac, w.VarsOf(idx), g)
		}, "count of %s over %v", g.Sprint(fac), idx)
		c.Check(err == nil, "count of %s over %v: %v", g.Sprint(fac), idx, err)
	}
	c.EqTT(w.TTOf(g), n.TT(nv), "%s keeps its meaning", g.Sprint(fac))
	c.NT(g.Sprint(fac))
}

func p36explain(c *Ctx) {
	r := c.R
	nv := r.Range(1, 4)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	t := TTConst(nv, true)
	var ps []f.Proposition
	for i := r.Range(0, 6); i > 0; i-- {
		n := gen36(r, nv)
		t = t.And(n.TT(nv))
		ps = append(ps, f.NewStandardProposition(w.Build(n)))
	}
	ins := append([]f.Proposition{}, ps...)
	name := "insertion"
	core, err := mus.ComputeInsertionBased(fac, &ins)
	if r.Bool() {
		name = "deletion"
		core, err = mus.ComputeDeletionBased(fac, &ins)
	}
	bad := !t.IsFalse()
	p36err(c, err, bad, errorx.ErrBadInput, "%s MUS of %d propositions", name, len(ps))
	c.Check(bad == (core == nil), "%s MUS of %d propositions: core %v, error %v", name, len(ps), core != nil, err)
	for i := range ps {
		c.Check(ins[i] == ps[i], "%s MUS changes its argument", name)
	}
	n := gen36(r, nv)
	g := w.Build(n)
	imp, err := primeimplicant.Minimum(fac, g)
	bad = n.TT(nv).IsFalse()
	p36err(c, err, bad, errorx.ErrBadInput, "minimum implicant of %s", g.Sprint(fac))
	c.Check(!bad || len(imp) == 0, "minimum implicant of %s: error and %d literals", g.Sprint(fac), len(imp))
	c.NT(g.Sprint(fac))
}

// facConfig36 is a configuration a factory must refuse.
type facConfig36 struct{}

func (facConfig36) Sort() configuration.Sort { return configuration.FormulaFactory }

func (x facConfig36) DefaultConfig() configuration.Config { return x }

func p36values(c *Ctx) {
	r := c.R
	for i := r.Range(2, 6); i > 0; i-- {
		v := []int{}
		bad := false
		for j := 0; j < 3; j++ {
			x := pick(r, r.Range(0, 255), r.Range(0, 255), 0, 255, -1, 256, r.Range(-1000, 1000), 1<<32)
			bad = bad || x < 0 || x > 255
			v = append(v, x)
		}
		col, err := graphical.ColorFromRgb(v[0], v[1], v[2])
		p36err(c, err, bad, errorx.ErrBadInput, "colour %v", v)
		if !bad {
			k, e := strconv.ParseUint(strings.TrimPrefix(string(col), "#"), 16, 64)
			c.Check(e == nil && len(col) == 7 && int(k) == v[0]<<16|v[1]<<8|v[2], "colour %v is %s", v, col)
		}
		rate := pick(r, 0, 1, 0.5, -0.001, 1.001, float64(r.Range(-200, 300))/100, -1e300, 1e300)
		most := r.Bool()
		p36panic(c, rate < 0 || rate > 1, errorx.ErrBadInput, func() {
			if most {
				iter.NewMostCommonVarProvider(rate, 5)
			} else {
				iter.NewLeastCommonVarProvider(rate, 5)
			}
		}, "split variables with rate %v", rate)
	}
	w := NewWorldPlain(2, r.Bool())
	fac := w.F
	err := fac.PutConfiguration(facConfig36{})
	p36err(c, err, true, errorx.ErrBadInput, "configuration of the factory itself")
	cfg := randEncConfig(r)
	p36err(c, fac.PutConfiguration(cfg), false, nil, "configuration of encodings")
	got, ok := fac.ConfigurationFor(cfg.Sort())
	c.Check(ok && got == cfg, "the configuration put is not the one got")
	c.NT(fmt.Sprint(r.U64()))
}

// p36parser: a text with an error yields an error, and the parser and the
// factory work afterwards.
func p36parser(c *Ctx) {
	r := c.R
	w := NewWorldPlain(r.Range(1, 5), false)
	p := parser.New(w.F)
	for i := r.Range(1, 5); i > 0; i-- {
		n := gen36(r, w.N)
		src := w.Build(n).Sprint(w.F)
		bad := r.Bool()
		if bad {
			src = pick(r, "("+src, src+" &", "| "+src, "=> ("+src+")", "~", "&", "("+src+" | )", "(("+src+")", "<= 3", "2 * <= "+src, "("+src+") <=> => v1")
		}
		g, err := p.Parse(src)
		if bad {
			c.Check(err != nil, "text %q accepted as %s", src, g.Sprint(w.F))
			c.Check(errors.Is(err, errorx.ErrBadInput), "text %q: error %v", src, err)
			c.Check(g == w.F.Falsum(), "text %q: error and formula %s", src, g.Sprint(w.F))
			c.Obs("texts rejected", 1)
		} else {
			c.Check(err == nil, "text %q rejected: %v", src, err)
			c.EqTT(w.TTOf(g), n.TT(w.N), "text %q", src)
			c.Obs("texts read after rejected ones", 1)
		}
	}
	c.NT(fmt.Sprint(r.U64()))
}

func init() {
	register(&PropDef{ID: "P36", Quick: 150000, Thorough: 3000000,
		Rule: "one case = a history of calls of one area (sorts, assignments, encodings, incremental bounds, graphs, BDDs on two kernels, DIMACS readers, MaxSAT and SAT solvers, transformations, explanations, values, parser) in which suitable and unsuitable inputs alternate; what a call must do is decided by the model before the call (value, error of the documented class, or documented panic), and the objects are compared with the model after it; non-trivial = distinct histories",
		Need: []string{"suitable inputs accepted", "unsuitable inputs rejected with an error", "unsuitable inputs rejected with a panic", "assignment states compared", "bounds compared after refused ones", "BDDs compared after rejected calls", "optima compared after rejected calls", "answers compared after rejected calls", "texts read after rejected ones", "DIMACS texts read", "MaxSAT texts read", "states loaded after a refused problem"},
		Run:  runP36,
	})
	probe("mus-empty-list", "P36", func(c *Ctx) {
		fac := f.NewFactory()
		core, err := mus.ComputeInsertionBased(fac, &[]f.Proposition{})
		p36err(c, err, true, errorx.ErrBadInput, "insertion MUS of no propositions")
		c.Check(core == nil, "insertion MUS of no propositions: a core")
	})
	probe("hypergraph-not-clauses", "P36", func(c *Ctx) {
		w := NewWorldPlain(3, false)
		g := w.Build(nOr(nLit(0, true), nAnd(nLit(1, true), nLit(2, true))))
		_, err := graph.HypergraphFromClauses(w.F, g)
		p36err(c, err, true, errorx.ErrBadInput, "hypergraph of %s", g.Sprint(w.F))
		_, err = graph.HypergraphFromClauses(w.F, w.Build(nOr(nLit(0, true), nLit(1, false))), w.F.Verum())
		p36err(c, err, false, nil, "hypergraph of a clause")
	})
}
