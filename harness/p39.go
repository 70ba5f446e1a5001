package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// Problems whose constraints each speak about a window of k neighbouring
// positions of a hidden line of variables. A dynamic program over the line
// counts models, minimises costs and lists attainable sums exactly, at sizes
// no truth table reaches.

type con39 struct {
	n  *Node
	lo int
	tt uint32 // over the window, bit j of the index = position lo+j
	w  int
}

type line39 struct {
	c    *Ctx
	w    *World
	n, k int
	at   []int // position -> variable of the world
	pos  []int
	cons []con39
	a, b int // constraints on windows from a to b
	flat int // percentage of clauses among the constraints
}

func newLine39(c *Ctx, n, k int) *line39 {
	r := c.R
	p := &line39{c: c, n: n, k: k, flat: pick(r, 0, 40, 80), w: NewWorld(r, n, r.P(15)), at: r.Perm(n), pos: make([]int, n)}
	for i, v := range p.at {
		p.pos[v] = i
	}
	p.b = n - k
	if r.P(25) { // only a part of the line
		p.a = r.Range(0, p.b)
		p.b = r.Range(p.a, p.b)
	}
	return p
}

func (n *Node) mapVars(m func(int) int) *Node {
	x := *n
	x.L.V = m(n.L.V)
	if n.K != KLit {
		x.L = n.L
	}
	x.Lits, x.Ops = nil, nil
	for _, l := range n.Lits {
		x.Lits = append(x.Lits, PLit{m(l.V), l.Pos})
	}
	for _, o := range n.Ops {
		x.Ops = append(x.Ops, o.mapVars(m))
	}
	return &x
}

// con draws a constraint on some window whose share of satisfying window
// assignments is at least pct percent (and below 100).
func (p *line39) con(pct int) con39 {
	r := p.c.R
	for {
		lo := r.Range(p.a, p.b)
		var n *Node
		if r.P(p.flat) {
			n = clausesNode(GenClauses(r, p.k, r.Range(1, 2), 1, 3))
		} else {
			g := stdCfg(r, p.k)
			g.Depth = r.Range(1, 3)
			if r.P(40) {
				g.CC, g.PB, g.MaxCC = 2, 2, p.k
			}
			n = Gen(r, g)
		}
		t := n.TT(p.k)
		cnt := t.Count()
		if cnt*100 < pct<<uint(p.k) {
			n, t = nNot(n), t.Not()
			cnt = t.Count()
		}
		if cnt*100 < pct<<uint(p.k) || cnt == 1<<uint(p.k) {
			continue
		}
		x := con39{n: n.mapVars(func(v int) int { return p.at[lo+v] }), lo: lo}
		for a := uint64(0); a < 1<<uint(p.k); a++ {
			if t.Get(a) {
				x.tt |= 1 << a
			}
		}
		return x
	}
}

// fill draws about share percent of n constraints.
func (p *line39) fill(share, pct int) {
	for i := (p.b - p.a + p.k) * share / 100; i > 0; i-- {
		p.cons = append(p.cons, p.con(pct))
	}
}

type query39 struct {
	cons   []con39
	soft   []con39
	forced map[int]bool // variable of the world -> value
	wt     []int        // weight of a true variable, by variable
}

type cell39 struct {
	n    uint64 // models
	cost int    // least cost of violated soft constraints
}

// run returns, per attainable weighted sum, the number of models and the
// least cost.
func (p *line39) run(q query39) map[int]cell39 {
	byLo := make([][]con39, p.n)
	softLo := make([][]con39, p.n)
	for _, x := range q.cons {
		byLo[x.lo] = append(byLo[x.lo], x)
	}
	for _, x := range q.soft {
		softLo[x.lo] = append(softLo[x.lo], x)
	}
	S := 1 << uint(p.k)
	cur := make([]map[int]cell39, S)
	cur[0] = map[int]cell39{0: {1, 0}}
	for i := 0; i < p.n; i++ {
		nxt := make([]map[int]cell39, S)
		v := p.at[i]
		fv, isF := q.forced[v]
		for s, m := range cur {
			if len(m) == 0 {
				continue
			}
			for b := 0; b < 2; b++ {
				if isF && fv != (b == 1) {
					continue
				}
				t := s>>1 | b<<uint(p.k-1)
				add := 0
				if lo := i - p.k + 1; lo >= 0 {
					ok := true
					for _, x := range byLo[lo] {
						if x.tt>>uint(t)&1 == 0 {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					for _, x := range softLo[lo] {
						if x.tt>>uint(t)&1 == 0 {
							add += x.w
						}
					}
				}
				inc := 0
				if b == 1 && q.wt != nil {
					inc = q.wt[v]
				}
				if nxt[t] == nil {
					nxt[t] = map[int]cell39{}
				}
				for sum, x := range m {
					y, ok := nxt[t][sum+inc]
					if !ok || x.cost+add < y.cost {
						y.cost = x.cost + add
					}
					y.n += x.n
					nxt[t][sum+inc] = y
				}
			}
		}
		cur = nxt
	}
	out := map[int]cell39{}
	for _, m := range cur {
		for sum, x := range m {
			y, ok := out[sum]
			if !ok || x.cost < y.cost {
				y.cost = x.cost
			}
			y.n += x.n
			out[sum] = y
		}
	}
	return out
}

func (p *line39) count(cons []con39, forced map[int]bool) uint64 {
	return p.run(query39{cons: cons, forced: forced})[0].n
}

func (p *line39) nodes(cons []con39) []*Node {
	var out []*Node
	for _, x := range cons {
		out = append(out, x.n)
	}
	return out
}

func (p *line39) formulas(cons []con39) []f.Formula {
	return p.w.BuildAll(p.nodes(cons))
}

// sample returns a random model (extending no assumptions), false if none.
func (p *line39) sample(cons []con39) (uint64, bool) {
	forced := map[int]bool{}
	if p.count(cons, forced) == 0 {
		return 0, false
	}
	a := uint64(0)
	for i := 0; i < p.n; i++ {
		v := p.at[i]
		forced[v] = p.c.R.Bool()
		if p.count(cons, forced) == 0 {
			forced[v] = !forced[v]
		}
		if forced[v] {
			a |= 1 << uint(v)
		}
	}
	return a, true
}

func asg39(ls []PLit) map[int]bool {
	m := map[int]bool{}
	for _, l := range ls {
		m[l.V] = l.Pos
	}
	return m
}

func (p *line39) lits(k int) []PLit {
	var out []PLit
	for _, v := range p.c.R.Perm(p.n)[:k] {
		out = append(out, PLit{v, p.c.R.Bool()})
	}
	return out
}

func (p *line39) txt(cons []con39) string {
	var s []string
	for _, g := range p.formulas(cons) {
		s = append(s, g.Sprint(p.w.F))
	}
	return cut(strings.Join(s, "; "), 900)
}

// model39 judges a model over all variables.
func (p *line39) model(lits []f.Literal, cons []con39, what string) uint64 {
	val, _ := p.partial(lits, cons, what)
	return val
}

func (p *line39) partial(lits []f.Literal, cons []con39, what string) (val, mask uint64) {
	mask, val, err := p.w.LitsAsg(lits)
	p.c.Check(err == "", "%s: model: %s", what, err)
	// variables no clause is about may be missing and do not matter
	val |= p.c.R.U64() & (1<<uint(p.n) - 1) &^ mask
	for _, x := range cons {
		p.c.Check(x.n.Eval(val), "%s: the model violates %s", what, p.w.Build(x.n).Sprint(p.w.F))
	}
	p.c.Obs("models judged", 1)
	return val, mask
}

func (p *line39) solver() *sat.Solver {
	sc := randSatConfig(p.c.R)
	if p.c.R.P(40) {
		sc = hotSatConfig(p.c.R)
	}
	return sat.NewSolver(p.w.F, sc)
}

// calls drives one solver through a history and compares every answer.
func (p *line39) calls() {
	c, r, w := p.c, p.c.R, p.w
	sc := randSatConfig(r)
	if r.P(50) {
		sc = hotSatConfig(r)
	}
	sc.ProofGeneration = r.P(60)
	s := sat.NewSolver(w.F, sc)
	var on []con39
	type st struct {
		s  *sat.SolverState
		on []con39
	}
	var states []st
	prop := map[f.Proposition]con39{}
	rest := p.cons
	for step := r.Range(4, 12); step > 0; step-- {
		switch x := r.Intn(10); {
		case x < 3 && len(rest) > 0:
			k := r.Range(1, len(rest))
			for _, x := range rest[:k] {
				g := w.Build(x.n)
				if sc.ProofGeneration {
					pr := f.NewStandardProposition(g, "")
					prop[pr] = x
					s.AddProposition(pr)
				} else {
					s.Add(g)
				}
			}
			on = append(append([]con39{}, on...), rest[:k]...)
			rest = rest[k:]
		case x == 3:
			states = append(states, st{s.SaveState(), on})
		case x == 4 && len(states) > 0:
			i := r.Intn(len(states))
			c.Check(s.LoadState(states[i].s) == nil, "state %d of %d cannot be loaded", i, len(states))
			on = states[i].on
			states = states[:i+1]
		case x == 5:
			vs := r.Subset(p.n, pick(r, 100, 50, 20))
			kind := pick(r, sat.BBBoth, sat.BBBoth, sat.BBPos, sat.BBNeg)
			bb := s.ComputeBackbone(w.F, w.VarsOf(shuffled(r, vs)), kind)
			judgeBackbone(c, w, bb, vs, kind, p.count(on, nil) > 0, func(l PLit) bool { return p.count(on, asg39([]PLit{l})) > 0 }, "line of "+p.txt(on))
		default:
			asm := p.lits(pick(r, 0, 0, 1, 2, 4, min(8, p.n)))
			extra := []con39{}
			for i := pick(r, 0, 0, 1, 3); i > 0; i-- {
				extra = append(extra, p.con(30))
			}
			all := append(append([]con39{}, on...), extra...)
			par := sat.Params().WithModel(w.Vars()).Literal(w.Lits(asm)...)
			ep := map[f.Proposition]con39{}
			if sc.ProofGeneration {
				par = par.WithCore()
				for _, x := range extra {
					pr := f.NewStandardProposition(w.Build(x.n), "extra")
					ep[pr] = x
					par = par.Proposition(pr)
				}
			} else {
				par = par.Formula(p.formulas(extra)...)
			}
			res := s.Call(par)
			want := p.count(all, asg39(asm))
			what := fmt.Sprintf("%s under %s", p.txt(all), litStr(w, w.Lits(asm)))
			c.Check(res.OK() && res.Sat() == (want > 0), "call says %v, the problem has %d models: %s", res.Sat(), want, what)
			if want > 0 {
				val := p.model(res.Model().Literals, all, what)
				for _, l := range asm {
					c.Check((val>>uint(l.V)&1 == 1) == l.Pos, "%s: the model violates an assumption", what)
				}
				c.Obs("satisfiable calls", 1)
				if want < 50 {
					c.Obs("satisfiable calls with few models", 1)
				}
			} else {
				c.Obs("unsatisfiable calls", 1)
				if sc.ProofGeneration {
					p.core(res.UnsatCore().Propositions, prop, ep, asm, what)
				}
			}
		}
	}
	c.NT(p.txt(on))
}

// core judges a core over known propositions (further ones stand for assumptions).
func (p *line39) core(ps []f.Proposition, own, extra map[f.Proposition]con39, asm []PLit, what string) {
	c := p.c
	var cons []con39
	forced := map[int]bool{}
	for _, x := range ps {
		if y, ok := own[x]; ok {
			cons = append(cons, y)
		} else if y, ok := extra[x]; ok {
			cons = append(cons, y)
		} else {
			g := x.Formula()
			c.Check(g.Sort() == f.SortLiteral, "%s: the core contains %s, which was never given", what, g.Sprint(p.w.F))
			l := p.w.PLit(f.Literal(g))
			ok := false
			for _, a := range asm {
				ok = ok || a == l
			}
			c.Check(ok, "%s: the core contains %s, which is no assumption", what, g.Sprint(p.w.F))
			forced[l.V] = l.Pos
		}
	}
	n := p.count(cons, forced)
	c.Check(n == 0, "%s: the core has %d models: %s", what, n, p.txt(cons))
	c.Obs("cores judged", 1)
	if len(ps) < len(own) {
		c.Obs("proper cores", 1)
	}
}

func big39(n uint64) *big.Int { return new(big.Int).SetUint64(n) }

// counts compares the counters.
func (p *line39) counts() {
	c, r, w := p.c, p.c.R, p.w
	fac := w.F
	var own []con39 // constraints whose encoding has no auxiliary variables
	for _, x := range p.cons {
		g := w.Build(x.n)
		ok := true
		if hasPB39(x.n) {
			ok = w.OnlyBase(w.From(normalform.NNF(fac, g)))
			for _, s := range f.SubNodes(fac, g) {
				if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
					ok = ok && w.OnlyBase(w.From(normalform.NNF(fac, s)))
				}
			}
		}
		if ok {
			own = append(own, x)
		}
	}
	p.cons = own
	want := p.prefixes(p.cons, nil, p.n)
	gs := p.formulas(p.cons)
	what := p.txt(p.cons)
	if r.P(25) { // a literal that satisfies every constraint
		p.hub(gs, want, what)
	}
	if r.P(50) {
		got, err := count.Count(fac, w.Vars(), gs...)
		clash := false
		for _, g := range gs { // constraints that are no at-most-one need an encoding and are refused
			clash = clash || hasPB39(w.From(g))
		}
		if err == nil {
			c.Check(got.Cmp(want) == 0, "Count gives %v, the problem has %v models: %s", got, want, what)
			c.Obs("counts judged", 1)
		} else {
			c.Check(clash, "Count refuses %s: %v", what, err)
		}
	}
	all := fac.And(gs...)
	if r.P(50) {
		d := dnnf.Compile(fac, all)
		occ := d.OriginalVars.Size()
		got := new(big.Int).Lsh(d.ModelCount(), uint(max(0, p.n-occ)))
		{
			c.Check(got.Cmp(want) == 0, "the DNNF counts %v over %d of %d variables, the problem has %v models: %s", d.ModelCount(), occ, p.n, want, what)
			c.Obs("DNNF counts judged", 1)
			beyond39(c, "DNNF", want)
		}
	}
	p.bdd(gs, want, what)
	c.NT(what)
}

// hub counts the problem in which one more literal satisfies every constraint.
func (p *line39) hub(gs []f.Formula, inner *big.Int, what string) {
	c, r, fac := p.c, p.c.R, p.w.F
	l := fac.Lit("hub", r.Bool())
	var hs []f.Formula
	for _, g := range gs {
		h := fac.Or(l.AsFormula(), g)
		if r.Bool() {
			h = fac.Implication(l.Negate(fac).AsFormula(), g)
		}
		hs = append(hs, h)
	}
	all := fac.And(hs...)
	if all.Sort() <= f.SortLiteral {
		return
	}
	want := new(big.Int).Lsh(big.NewInt(1), uint(p.n))
	want.Add(want, inner)
	what = "with the literal " + l.Sprint(fac) + " in every constraint, " + what
	d := dnnf.Compile(fac, all)
	got := new(big.Int).Lsh(d.ModelCount(), uint(p.n+1-d.OriginalVars.Size()))
	c.Check(got.Cmp(want) == 0, "%s: the DNNF counts %v over %d of %d variables, the problem has %v models", what, d.ModelCount(), d.OriginalVars.Size(), p.n+1, want)
	n, err := count.Count(fac, append(p.w.Vars(), l.Variable()), hs...)
	c.Check(err != nil || n.Cmp(want) == 0, "%s: Count gives %v, the problem has %v models", what, n, want)
	c.Obs("problems with a common literal counted", 1)
	if want.BitLen() > 65 {
		c.Obs("problems with a common literal beyond 64 bits", 1)
	}
}

func beyond39(c *Ctx, what string, n *big.Int) {
	if n.BitLen() > 33 {
		c.Obs(what+" counts beyond 32 bits", 1)
	}
	if n.BitLen() > 64 {
		c.Obs(what+" counts beyond 64 bits", 1)
	}
}

func hasPB39(n *Node) bool { return n.HasPB() }

func (p *line39) bdd(gs []f.Formula, want *big.Int, what string) {
	c, r, w := p.c, p.c.R, p.w
	fac := w.F
	var order []f.Variable
	for _, v := range p.at {
		order = append(order, w.Var(v))
	}
	for i := r.Intn(4); i > 0; i-- { // a little disorder
		j := r.Intn(p.n - 1)
		order[j], order[j+1] = order[j+1], order[j]
	}
	size := int32(pick(r, 100, 1000, 20000))
	k := bdd.NewKernelWithOrdering(fac, order, size, size)
	var b *bdd.BDD
	if r.Bool() {
		b = bdd.CompileWithKernel(fac, fac.And(gs...), k)
	} else {
		b = bdd.CompileWithKernel(fac, fac.Verum(), k)
		for _, g := range gs {
			b = b.And(bdd.CompileWithKernel(fac, g, k))
		}
	}
	c.Check(b.ModelCount().Cmp(want) == 0, "the BDD counts %v, the problem has %v models: %s", b.ModelCount(), want, what)
	c.Check(b.IsContradiction() == (want.Sign() == 0), "IsContradiction is %v with %v models: %s", b.IsContradiction(), want, what)
	c.Obs("BDD counts judged", 1)
	beyond39(c, "BDD", want)
	if r.P(30) && b.NodeCount() < 2000 {
		m := pick(r, bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderSift, bdd.ReorderSiftIte)
		k.AddAllVariablesAsBlock()
		k.Reorder(m)
		c.Check(b.ModelCount().Cmp(want) == 0, "after reordering (%v) the BDD counts %v, before %v: %s", m, b.ModelCount(), want, what)
		c.Obs("reordered BDDs judged", 1)
	}
	// restriction
	ls := p.lits(r.Range(1, min(4, p.n)))
	x := b.Restrict(w.Lits(ls)...)
	y := new(big.Int).Lsh(p.prefixes(p.cons, asg39(ls), p.n), uint(len(ls)))
	c.Check(x.ModelCount().Cmp(y) == 0, "restricted by %s the BDD counts %v, expected %v: %s", litStr(w, w.Lits(ls)), x.ModelCount(), y, what)
	// quantification of the end of the line
	t := r.Range(0, p.n)
	var ex []f.Variable
	for _, v := range p.at[t:] {
		ex = append(ex, w.Var(v))
	}
	e := b.Exists(shuffled(r, ex)...)
	y = new(big.Int).Lsh(p.prefixes(p.cons, nil, t), uint(p.n-t))
	c.Check(e.ModelCount().Cmp(y) == 0, "with the last %d of %d positions quantified the BDD counts %v, expected %v: %s", p.n-t, p.n, e.ModelCount(), y, what)
	c.Obs("quantified BDDs judged", 1)
	e = b.Negate().ForAll(ex...)
	z := new(big.Int).Lsh(big.NewInt(1), uint(p.n))
	z.Sub(z, y)
	c.Check(e.ModelCount().Cmp(z) == 0, "with the last %d of %d positions quantified universally the complement counts %v, expected %v: %s", p.n-t, p.n, e.ModelCount(), z, what)
	if want.Sign() > 0 && p.n <= 60 {
		m, err := b.FullModel()
		c.Check(err == nil, "FullModel: %v: %s", err, what)
		p.model(m.Literals, p.cons, "BDD of "+what)
	}
}

// prefixes counts the assignments of the first t positions that extend to a
// model with the forced values.
func (p *line39) prefixes(cons []con39, forced map[int]bool, t int) *big.Int {
	byLo := make([][]con39, p.n)
	for _, x := range cons {
		byLo[x.lo] = append(byLo[x.lo], x)
	}
	S := 1 << uint(p.k)
	ok := func(i, s int) bool {
		if fv, is := forced[p.at[i]]; is && fv != (s>>uint(p.k-1) == 1) {
			return false
		}
		if lo := i - p.k + 1; lo >= 0 {
			for _, x := range byLo[lo] {
				if x.tt>>uint(s)&1 == 0 {
					return false
				}
			}
		}
		return true
	}
	back := make([]bool, S) // extendable states before position i
	for s := range back {
		back[s] = true
	}
	for i := p.n - 1; i >= t; i-- {
		nb := make([]bool, S)
		for s := 0; s < S; s++ {
			for b := 0; b < 2; b++ {
				x := s>>1 | b<<uint(p.k-1)
				nb[s] = nb[s] || ok(i, x) && back[x]
			}
		}
		back = nb
	}
	cur := make([]*big.Int, S)
	cur[0] = big.NewInt(1)
	for i := 0; i < t; i++ {
		nxt := make([]*big.Int, S)
		for s, x := range cur {
			for b := 0; b < 2 && x != nil; b++ {
				y := s>>1 | b<<uint(p.k-1)
				if ok(i, y) {
					if nxt[y] == nil {
						nxt[y] = new(big.Int)
					}
					nxt[y].Add(nxt[y], x)
				}
			}
		}
		cur = nxt
	}
	n := new(big.Int)
	for s, x := range cur {
		if x != nil && back[s] {
			n.Add(n, x)
		}
	}
	return n
}

// enumerate compares projected and full enumerations.
func (p *line39) enumerate() {
	c, r, w := p.c, p.c.R, p.w
	what := p.txt(p.cons)
	want := p.count(p.cons, nil)
	s := p.solver()
	s.Add(p.formulas(p.cons)...)
	vs := r.Perm(p.n)[:r.Range(1, min(8, p.n))]
	full := want <= 400
	if full && r.Bool() {
		vs = r.Perm(p.n)
	} else {
		full = false
	}
	cfg := iter.DefaultConfig()
	var prov iter.SplitProvider = iter.NewLeastCommonVarProvider(float64(r.Range(1, 10))/10, r.Range(1, 18))
	if r.Bool() {
		prov = iter.NewMostCommonVarProvider(float64(r.Range(1, 10))/10, r.Range(1, 18))
	}
	cfg.Strategy = iter.NewBasicStrategy(prov, r.Range(3, 60))
	if r.P(20) {
		cfg.Strategy = iter.NewNoSplitMEStrategy()
	}
	ms, st := enum.OnSolverWithConfig(s, w.VarsOf(vs), cfg)
	c.Check(st.Success, "enumeration is cancelled: %s", what)
	wm := uint64(0)
	for _, v := range vs {
		wm |= 1 << uint(v)
	}
	got := map[uint64]bool{}
	for _, m := range ms {
		mask, val, err := w.LitsAsg(m.Literals)
		c.Check(err == "" && mask == wm, "an enumerated model does not assign exactly the %d projection variables: %s", len(vs), what)
		c.Check(!got[val], "a model is enumerated twice: %s", what)
		got[val] = true
		if full {
			for _, x := range p.cons {
				c.Check(x.n.Eval(val), "an enumerated model violates %s: %s", w.Build(x.n).Sprint(w.F), what)
			}
		}
	}
	exp := uint64(0)
	if full {
		exp = want
	} else {
		for a := uint64(0); a < 1<<uint(len(vs)); a++ {
			forced := map[int]bool{}
			val := uint64(0)
			for j, v := range vs {
				forced[v] = a>>uint(j)&1 == 1
				if forced[v] {
					val |= 1 << uint(v)
				}
			}
			is := p.count(p.cons, forced) > 0
			c.Check(is == got[val], "projection %s is enumerated: %v, expected %v: %s", litStr(w, w.Lits(lits39(forced))), got[val], is, what)
			if is {
				exp++
			}
		}
	}
	c.Check(uint64(len(ms)) == exp, "%d models are enumerated, expected %d: %s", len(ms), exp, what)
	n, st := count.OnSolverWithConfig(s, w.VarsOf(shuffled(r, vs)), cfg)
	c.Check(st.Success && n.Cmp(big39(exp)) == 0, "%v models are counted by enumeration, expected %d: %s", n, exp, what)
	if r.P(30) {
		b, st := enum.ToBddOnSolverWithConfig(s, w.VarsOf(vs), cfg)
		c.Check(st.Success && b.ModelCount().Cmp(big39(exp)) == 0, "the BDD of the enumeration counts %v, expected %d: %s", b.ModelCount(), exp, what)
	}
	c.Check(s.Sat() == (want > 0), "after the enumeration the solver is satisfiable: %v, expected %v: %s", s.Sat(), want > 0, what)
	c.Obs("enumerations", 1)
	c.Obs("enumerated models", len(ms))
	c.NT(what)
}

func lits39(m map[int]bool) []PLit {
	var out []PLit
	for v, b := range m {
		out = append(out, PLit{v, b})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].V < out[j].V })
	return out
}

func keys39(m map[int]cell39) []int {
	var out []int
	for k, x := range m {
		if x.n > 0 {
			out = append(out, k)
		}
	}
	sort.Ints(out)
	return out
}

// optimise compares the optimisation of literals on a solver.
func (p *line39) optimise() {
	c, r, w := p.c, p.c.R, p.w
	s := p.solver()
	s.Add(p.formulas(p.cons)...)
	for rounds := r.Range(1, 3); rounds > 0; rounds-- {
		ls := p.lits(r.Range(1, p.n))
		what := fmt.Sprintf("%s for %s", p.txt(p.cons), cut(litStr(w, w.Lits(ls)), 300))
		best := p.extreme(ls)
		lo, hi, ok := best[0], best[1], best[2] == 1
		maxi := r.Bool()
		var m []f.Literal
		if maxi {
			if x := s.Maximize(w.Lits(ls), w.Vars()...); x != nil {
				m = x.Literals
			}
		} else {
			if x := s.Minimize(w.Lits(ls), w.Vars()...); x != nil {
				m = x.Literals
			}
		}
		c.Check((m != nil) == ok, "optimisation finds a model: %v, expected %v: %s", m != nil, ok, what)
		if ok {
			val, mask := p.partial(m, p.cons, what)
			got := 0
			for _, l := range ls {
				if mask>>uint(l.V)&1 == 0 {
					if maxi { // free
						got++
					}
				} else if (val>>uint(l.V)&1 == 1) == l.Pos {
					got++
				}
			}
			exp := lo
			if maxi {
				exp = hi
			}
			c.Check(got == exp, "optimisation (maximal: %v) reaches %d, the optimum is %d: %s", maxi, got, exp, what)
			c.Obs("optima judged", 1)
			if lo < hi && lo > 0 && hi < len(ls) {
				c.Obs("optima strictly inside the range", 1)
			}
		}
		if r.P(40) {
			x := p.con(50)
			s.Add(w.Build(x.n))
			p.cons = append(p.cons, x)
		}
	}
	c.NT(p.txt(p.cons))
}

// extreme returns the least and the greatest number of true literals and
// whether there is a model, by way of soft unit constraints.
func (p *line39) extreme(ls []PLit) [3]int {
	least := func(pos bool) (int, bool) {
		var soft []con39
		for _, l := range ls {
			soft = append(soft, p.unit(PLit{l.V, l.Pos == pos}, 1))
		}
		m := p.run(query39{cons: p.cons, soft: soft})
		x, ok := m[0]
		return x.cost, ok && x.n > 0
	}
	falseN, ok := least(true)
	trueN, _ := least(false)
	res := [3]int{trueN, len(ls) - falseN, 0}
	if ok {
		res[2] = 1
	}
	return res
}

// unit is the constraint of one literal.
func (p *line39) unit(l PLit, wt int) con39 {
	i := p.pos[l.V]
	lo := min(i, p.n-p.k)
	x := con39{n: nLit(l.V, l.Pos), lo: lo, w: wt}
	for a := uint(0); a < 1<<uint(p.k); a++ {
		if (a>>uint(i-lo)&1 == 1) == l.Pos {
			x.tt |= 1 << a
		}
	}
	return x
}

func (p *line39) maxsat() {
	c, r, w := p.c, p.c.R, p.w
	unit := r.P(35)
	maxW := pick(r, 2, 5, 20)
	spread := r.P(35)
	var soft []con39
	for i := r.Range(1, min(30, p.n)); i > 0; i-- {
		x := p.con(pick(r, 5, 10, 40))
		if r.P(40) {
			x = p.unit(PLit{r.Intn(p.n), r.Bool()}, 1)
		}
		x.w = 1
		if !unit {
			x.w = r.Range(1, maxW)
			if spread {
				x.w = pick(r, 1, 7, 60)
			}
		}
		soft = append(soft, x)
	}
	cell, ok := p.run(query39{cons: p.cons, soft: soft})[0]
	ok = ok && cell.n > 0
	what := fmt.Sprintf("hard %s; soft %s", p.txt(p.cons), p.txt(soft))
	for _, i := range r.Perm(len(mxAlgs))[:2] {
		h := newMX(c, w, mxAlgs[i])
		weighted := false
		for _, s := range soft {
			weighted = weighted || s.w > 1
		}
		if weighted && !h.s.SupportsWeighted() || !weighted && !h.s.SupportsUnweighted() {
			continue
		}
		for _, n := range p.nodes(p.cons) {
			h.addHard(n)
		}
		var ss maxsatState39
		for j, s := range soft {
			if j == len(soft)/2 && h.supported() && r.P(20) {
				ss.take(h)
				h.addSoft(s.n, s.w)
				h.s.Solve()
				ss.back(c, h)
			}
			h.addSoft(s.n, s.w)
		}
		res := h.s.Solve()
		c.Check(res.Satisfiable == ok, "%s: satisfiable %v, expected %v: %s", h.what(), res.Satisfiable, ok, what)
		if ok {
			c.Check(res.Optimum == cell.cost, "%s: optimum %d, expected %d: %s", h.what(), res.Optimum, cell.cost, what)
			h.hard, h.nv = p.nodes(p.cons), p.n
			h.judgeModel(res.Model, cell.cost, func(a uint64) int {
				t := 0
				for _, s := range soft {
					if !s.n.Eval(a) {
						t += s.w
					}
				}
				return t
			})
			c.Obs("MaxSAT optima judged", 1)
			if cell.cost > 0 {
				c.Obs("MaxSAT optima above 0", 1)
			}
		}
	}
	c.NT(what)
}

type maxsatState39 struct {
	s *maxsat.SolverState
}

func (m *maxsatState39) take(h *MX) { m.s = h.s.SaveState() }

func (m *maxsatState39) back(c *Ctx, h *MX) {
	c.Check(h.s.LoadState(m.s) == nil, "%s: the state cannot be loaded", h.what())
}

// linear puts one constraint over many variables next to the line.
func (p *line39) linear() {
	c, r, w := p.c, p.c.R, p.w
	fac := w.F
	fac.PutConfiguration(randEncConfig(r))
	s := p.solver()
	s.Add(p.formulas(p.cons)...)
	idx := r.Perm(p.n)[:r.Range(2, p.n)]
	wt := make([]int, p.n)
	isCC := r.P(60)
	off := 0
	coefs := []int{}
	lits := []PLit{}
	for _, v := range idx {
		x := 1
		if !isCC {
			x = r.Range(-6, 6)
			if x == 0 {
				x = 1
			}
		}
		l := PLit{v, isCC || r.P(60)}
		coefs = append(coefs, x)
		lits = append(lits, l)
		// x*l = x - x*v for a negative literal
		y := x
		if !l.Pos {
			off += x
			y = -x
		}
		wt[v] = y
	}
	hist := p.run(query39{cons: p.cons, wt: wt})
	sums := map[int]uint64{}
	lo, hi := 0, 0
	for k, x := range hist {
		sums[k+off] += x.n
		lo, hi = min(lo, k+off), max(hi, k+off)
	}
	sums39 := func(ok func(int) bool) uint64 {
		n := uint64(0)
		for k, x := range sums {
			if ok(k) {
				n += x
			}
		}
		return n
	}
	val39 := func(a uint64) int {
		t := 0
		for i, l := range lits {
			if (a>>uint(l.V)&1 == 1) == l.Pos {
				t += coefs[i]
			}
		}
		return t
	}
	judge := func(want uint64, ok func(int) bool, what string) {
		res := s.Call(sat.WithModel(w.Vars()))
		c.Check(res.Sat() == (want > 0), "%s: satisfiable %v, expected %d models; line %s", what, res.Sat(), want, p.txt(p.cons))
		if want > 0 {
			a := p.model(res.Model().Literals, p.cons, what)
			c.Check(ok(val39(a)), "%s: the model reaches %d; line %s", what, val39(a), p.txt(p.cons))
			c.Obs("satisfiable constraints", 1)
		} else {
			c.Obs("unsatisfiable constraints", 1)
		}
	}
	if isCC && r.P(50) { // incrementally
		upper := r.Bool()
		bound := r.Range(0, len(idx))
		cmp := f.GE
		if upper {
			bound = len(idx) - r.Intn(3)
			cmp = f.LE
		} else {
			bound = r.Intn(3)
		}
		var data *encoding.CCIncrementalData
		g := fac.CC(cmp, uint32(bound), w.VarsOf(idx)...)
		data, err := s.AddIncrementalCC(g)
		if err != nil || data == nil {
			return
		}
		for {
			ok := func(x int) bool { return x >= bound }
			if upper {
				ok = func(x int) bool { return x <= bound }
			}
			want := sums39(ok)
			judge(want, ok, fmt.Sprintf("incremental %s tightened to %d", cut(g.Sprint(fac), 200), bound))
			if want == 0 {
				c.Obs("bounds tightened until unsatisfiable", 1)
				break
			}
			if upper {
				if bound == 0 {
					break
				}
				bound = max(0, bound-r.Range(1, 5))
				data.NewUpperBoundForSolver(bound)
			} else {
				if bound == len(idx) {
					break
				}
				bound = min(len(idx), bound+r.Range(1, 5))
				data.NewLowerBoundForSolver(bound)
			}
			c.Obs("tightened bounds judged", 1)
		}
		c.NT(p.txt(p.cons) + fmt.Sprint(idx))
		return
	}
	st := s.SaveState()
	for i := 0; i < 4; i++ {
		cmp := r.Intn(5)
		rhs := r.Range(lo-1, hi+1)
		if isCC {
			rhs = r.Range(0, len(idx))
		} else if ks := keys39(hist); len(ks) > 0 && r.P(50) {
			rhs = ks[pick(r, 0, len(ks)-1, r.Intn(len(ks)))] + off + r.Range(-1, 1)
		}
		if isCC && r.P(40) {
			if ks := keys39(hist); len(ks) > 0 {
				rhs = max(0, ks[pick(r, 0, len(ks)-1)]+off+r.Range(-1, 1))
			}
		}
		ok := func(x int) bool { return Cmp(cmp).Eval(x, rhs) }
		var g f.Formula
		if isCC {
			g = fac.CC(csorts[cmp], uint32(rhs), w.VarsOf(idx)...)
		} else {
			g = fac.PBC(csorts[cmp], rhs, w.Lits(lits), coefs)
		}
		s.Add(g)
		judge(sums39(ok), ok, cut(g.Sprint(fac), 300))
		c.Check(s.LoadState(st) == nil, "the state cannot be loaded")
		c.Obs("large constraints judged", 1)
	}
	c.NT(p.txt(p.cons) + fmt.Sprint(idx))
}

// muses judges minimal cores.
func (p *line39) muses() {
	c, r, w := p.c, p.c.R, p.w
	cons := p.cons
	if p.count(cons, nil) > 0 { // cut the line at some place
		for i := 0; i < 60 && p.count(cons, nil) > 0; i++ {
			cons = append(cons, p.con(20))
		}
		if p.count(cons, nil) > 0 {
			c.Skip("satisfiable")
			return
		}
	}
	what := p.txt(cons)
	var props []f.Proposition
	own := map[f.Proposition]con39{}
	for _, x := range cons {
		pr := f.NewStandardProposition(w.Build(x.n), "")
		own[pr] = x
		props = append(props, pr)
	}
	judge := func(core []f.Proposition, name string) {
		var in []con39
		seen := map[f.Proposition]bool{}
		for _, x := range core {
			y, ok := own[x]
			c.Check(ok && !seen[x], "%s: the core lists something unknown or twice: %s", name, what)
			seen[x] = true
			in = append(in, y)
		}
		c.Check(p.count(in, nil) == 0, "%s: the core is satisfiable: %s of %s", name, p.txt(in), what)
		for i := range in {
			rest := append(append([]con39{}, in[:i]...), in[i+1:]...)
			c.Check(p.count(rest, nil) > 0, "%s: the core is not minimal: %s of %s", name, p.txt(in), what)
		}
		c.Obs("minimal cores judged", 1)
		c.Obs("constraints in minimal cores", len(in))
	}
	var core *explanation.UnsatCore
	var err error
	if r.Bool() {
		core, err = mus.ComputeInsertionBased(w.F, &props)
		c.Check(err == nil, "insertion based: %v: %s", err, what)
		judge(core.Propositions, "insertion based")
	} else {
		core, err = mus.ComputeDeletionBased(w.F, &props)
		c.Check(err == nil, "deletion based: %v: %s", err, what)
		judge(core.Propositions, "deletion based")
	}
	if r.P(30) {
		// a smallest one of those next to a minimal core is not larger
		in := core.Propositions
		for i := 0; i < 10 && i < len(props); i++ {
			x := props[r.Intn(len(props))]
			dup := false
			for _, y := range in {
				dup = dup || x == y
			}
			if !dup {
				in = append(in, x)
			}
		}
		if len(in) <= 14 {
			sm := smus.Compute(w.F, shuffled(r, in))
			judge(sm, "smallest")
			least := len(in)
			for m := 1; m < 1<<uint(len(in)); m++ {
				var sub []con39
				for i := range in {
					if m>>uint(i)&1 == 1 {
						sub = append(sub, own[in[i]])
					}
				}
				if len(sub) < least && p.count(sub, nil) == 0 {
					least = len(sub)
				}
			}
			c.Check(len(sm) == least, "the smallest core has %d constraints, the least is %d: %s", len(sm), least, what)
			c.Obs("smallest cores judged", 1)
		}
	}
	c.NT(what)
}

// forms evaluates normal forms and simplifications at models and near them.
func (p *line39) forms() {
	c, r, w := p.c, p.c.R, p.w
	fac := w.F
	all := fac.And(p.formulas(p.cons)...)
	what := p.txt(p.cons)
	kind := r.Intn(8)
	var g f.Formula
	name := ""
	switch kind {
	case 0:
		g, name = normalform.NNF(fac, all), "NNF"
	case 1:
		x, st := normalform.FactorizedCNFWithHandler(fac, all, normalform.NewFactorizationHandler(4000, 4000))
		g, name = x, "factorized CNF"
		if !st.Success { // exponential
			g, name = normalform.NNF(fac, all), "NNF"
		}
	case 2:
		g, name = normalform.TseitinCNFWithBoundary(fac, all, r.Intn(8)), "Tseitin"
	case 3:
		g, name = normalform.PGCNFWithBoundary(fac, all, r.Intn(8)), "Plaisted-Greenbaum"
	case 4:
		cfg := normalform.DefaultCNFConfig()
		cfg.DistributionBoundary, cfg.CreatedClauseBoundary, cfg.AtomBoundary = r.Range(0, 40), r.Range(0, 40), r.Range(1, 12)
		g, name = normalform.CNF(fac, all, cfg), "CNF"
	case 5:
		g, name = simplification.PropagateBackbone(fac, all), "backbone propagation"
	case 6:
		g, name = simplification.PropagateUnits(fac, all), "unit propagation"
	default:
		g, name = normalform.AIG(fac, all), "AIG"
	}
	s := p.solver()
	s.Add(g)
	want := p.count(p.cons, nil)
	c.Check(s.Sat() == (want > 0), "%s is satisfiable: %v, the problem has %d models: %s", name, s.Sat(), want, what)
	for i := 0; i < 6; i++ {
		a, ok := p.sample(p.cons)
		if !ok || r.P(15) {
			a = r.U64() & (1<<uint(p.n) - 1)
		}
		if i%2 == 1 {
			a ^= 1 << uint(r.Intn(p.n))
		}
		exp := true
		for _, x := range p.cons {
			exp = exp && x.n.Eval(a)
		}
		var asm []f.Literal
		for v := 0; v < p.n; v++ {
			asm = append(asm, w.Lit(PLit{v, a>>uint(v)&1 == 1}))
		}
		got := s.Call(sat.WithAssumptions(asm)).Sat()
		c.Check(got == exp, "%s at %b: %v, expected %v: %s", name, a, got, exp, what)
		if exp {
			c.Obs("forms judged at models", 1)
		} else {
			c.Obs("forms judged elsewhere", 1)
		}
	}
	c.NT(name + what)
}

func runP39(c *Ctx) {
	r := c.R
	n := pick(r, r.Range(6, 14), r.Range(12, 30), r.Range(25, 45), r.Range(40, 60))
	k := r.Range(2, 5)
	job := r.Intn(8)
	if job == 4 {
		n = min(n, r.Range(12, 28))
	}
	if job == 1 && r.P(40) {
		n, k = r.Range(60, 130), r.Range(2, 4)
	}
	p := newLine39(c, n, k)
	share := pick(r, 40, 80, 100, 130, 180)
	if job == 1 || job == 3 {
		share = pick(r, 15, 30, 50, 80, 110)
	}
	p.fill(share, pick(r, 30, 50, 70))
	c.Logf("n=%d k=%d job %d: %s", n, k, job, p.txt(p.cons))
	switch job {
	case 0:
		p.calls()
	case 1:
		p.counts()
	case 2:
		p.enumerate()
	case 3:
		p.optimise()
	case 4:
		p.maxsat()
	case 5:
		p.linear()
	case 6:
		p.muses()
	default:
		p.forms()
	}
	if n >= 40 {
		c.Obs("problems over 40 and more variables", 1)
	}
}

func init() {
	register(&PropDef{ID: "P39", Quick: 16000, Thorough: 400000, Run: runP39,
		Rule: "one case = random constraints on windows of 2-5 neighbouring positions of a hidden line of 6-60 (for counting 130) variables, given to one engine; answers are compared with a dynamic program along the line; non-trivial = distinct problems",
		Need: []string{"models judged", "satisfiable calls", "satisfiable calls with few models", "unsatisfiable calls", "cores judged", "proper cores", "backbones", "backbone literals",
			"counts judged", "DNNF counts judged", "DNNF counts beyond 32 bits", "DNNF counts beyond 64 bits", "problems with a common literal beyond 64 bits", "BDD counts beyond 64 bits", "BDD counts judged", "BDD counts beyond 32 bits", "reordered BDDs judged", "quantified BDDs judged",
			"enumerations", "enumerated models", "optima judged", "optima strictly inside the range", "MaxSAT optima judged", "MaxSAT optima above 0",
			"large constraints judged", "satisfiable constraints", "unsatisfiable constraints", "tightened bounds judged", "bounds tightened until unsatisfiable",
			"minimal cores judged", "smallest cores judged", "forms judged at models", "forms judged elsewhere", "problems over 40 and more variables"}})
	probe("enumeration-expands-early", "P39", func(c *Ctx) {
		// 45 variables unknown to an unsatisfiable solver: no model, no expansion
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		s.Add(fac.Falsum())
		var vs []f.Variable
		for i := 0; i < 45; i++ {
			vs = append(vs, fac.Var(fmt.Sprint("v", i)))
		}
		c.Check(len(enum.OnSolver(s, vs)) == 0, "models of an unsatisfiable solver")
	})
}
