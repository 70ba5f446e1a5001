package main

import (
	"fmt"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/simplification"
)

func p26formula(r *Rng, nv int) *Node {
	lit := func() *Node { return nLit(r.Intn(nv), r.Bool()) }
	switch x := r.Intn(12); {
	case x < 3:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 4)
		return Gen(r, g)
	case x < 4:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 3)
		g.CC, g.PB, g.MaxCC = 2, 1, nv
		return Gen(r, g)
	case x < 6: // clauses, with units and subsumed clauses
		return clausesNode(p26clauses(r, nv))
	case x < 7:
		return nNot(clausesNode(p26clauses(r, nv)))
	case x < 9: // sums of products with common factors
		var common []*Node
		for i := 0; i < r.Range(1, 3); i++ {
			if r.P(30) {
				common = append(common, nOr(lit(), lit()), nAnd(lit(), lit()))
			} else {
				common = append(common, lit())
			}
		}
		var ts []*Node
		for i := r.Range(2, 5); i > 0; i-- {
			t := []*Node{}
			for _, q := range common {
				if r.P(60) {
					t = append(t, q)
				}
			}
			for j := r.Range(0, 2); j > 0; j-- {
				t = append(t, lit())
			}
			if r.P(20) && len(t) > 1 {
				t = append(t, nOr(nAnd(t[0], lit()), nAnd(t[0], lit())))
			}
			t = shuffled(r, t)
			if len(t) > 0 {
				ts = append(ts, nAnd(t...))
			}
		}
		for r.P(30) {
			ts = append(ts, pick(r, common...))
		}
		n := nOr(ts...)
		if r.Bool() {
			n = dualNode(n)
		}
		return n
	case x < 10: // many negations
		var ls []*Node
		for v := 0; v < nv; v++ {
			ls = append(ls, nLit(v, r.P(20)))
		}
		ls = append(ls, nOr(nNot(lit()), nNot(lit())))
		n := nAnd(shuffled(r, ls)[:r.Range(1, len(ls))]...)
		if r.Bool() {
			n = dualNode(n)
		}
		if r.Bool() {
			n = nOr(n, lit(), nNot(lit()))
		}
		return n
	default:
		g := stdCfg(r, nv)
		g.Depth = r.Range(1, 3)
		a := Gen(r, g)
		return nAnd(a, Gen(r, g), lit())
	}
}

// dualNode exchanges conjunctions and disjunctions.
func dualNode(n *Node) *Node {
	if n.K != KAnd && n.K != KOr {
		return n
	}
	var ops []*Node
	for _, o := range n.Ops {
		ops = append(ops, dualNode(o))
	}
	if n.K == KAnd {
		return nOr(ops...)
	}
	return nAnd(ops...)
}

// depth26 is the nesting depth of a formula.
func depth26(n *Node) int {
	d := 0
	for _, o := range n.Ops {
		d = max(d, 1+depth26(o))
	}
	return d
}

func p26clauses(r *Rng, nv int) [][]PLit {
	cls := GenClauses(r, nv, r.Range(1, 3*nv+1), 1, min(pick(r, 4, 4, 12), nv))
	for i := range cls { // extended and reduced copies
		if r.P(25) {
			for v := 0; v < nv; v++ {
				if r.P(30) {
					in := false
					for _, l := range cls[i] {
						in = in || l.V == v
					}
					if !in {
						cls = append(cls, append(append([]PLit{}, cls[i]...), PLit{v, r.Bool()}))
					}
				}
			}
		}
	}
	return shuffled(r, cls)
}

func litOccurrences(n *Node) []PLit {
	if n.K == KLit {
		return []PLit{n.L}
	}
	out := append([]PLit{}, n.Lits...)
	for _, o := range n.Ops {
		out = append(out, litOccurrences(o)...)
	}
	return out
}

func plitKey(ls []PLit) string {
	ls = append([]PLit{}, ls...)
	sort.Slice(ls, func(i, j int) bool {
		return ls[i].V < ls[j].V || ls[i].V == ls[j].V && !ls[i].Pos && ls[j].Pos
	})
	return fmt.Sprint(ls)
}

// clausesOfN gives the literal lists of a CNF (or, for kind KOr, of a DNF).
func termsOfN(n *Node, outer Kind) [][]PLit {
	list := func(m *Node) []PLit {
		if m.K == KLit {
			return []PLit{m.L}
		}
		var out []PLit
		for _, o := range m.Ops {
			out = append(out, o.L)
		}
		return out
	}
	if n.K == outer {
		var out [][]PLit
		for _, o := range n.Ops {
			out = append(out, list(o))
		}
		return out
	}
	return [][]PLit{list(n)}
}

func isTautClause(cl []PLit) bool {
	for _, l := range cl {
		for _, m := range cl {
			if l.V == m.V && l.Pos != m.Pos {
				return true
			}
		}
	}
	return false
}

func subsetOf(a, b []PLit) bool {
	for _, l := range a {
		in := false
		for _, m := range b {
			in = in || l == m
		}
		if !in {
			return false
		}
	}
	return true
}

// refUnits is unit propagation on clauses: units and the reduced remaining
// clauses, or a conflict.
func refUnits(cls [][]PLit) (units map[PLit]bool, rest map[string]bool, conflict bool) {
	units, rest = map[PLit]bool{}, map[string]bool{}
	for again := true; again; {
		again = false
		for _, cl := range cls {
			if isTautClause(cl) {
				continue
			}
			open := map[PLit]bool{}
			sat := false
			for _, l := range cl {
				if units[l] {
					sat = true
				} else if !units[PLit{l.V, !l.Pos}] {
					open[l] = true
				}
			}
			if sat {
				continue
			}
			if len(open) == 0 {
				return nil, nil, true
			}
			if len(open) == 1 {
				for l := range open {
					units[l] = true
				}
				again = true
			}
		}
	}
	for _, cl := range cls {
		if isTautClause(cl) {
			continue
		}
		open := map[PLit]bool{}
		sat := false
		for _, l := range cl {
			if units[l] {
				sat = true
			} else if !units[PLit{l.V, !l.Pos}] {
				open[l] = true
			}
		}
		if !sat {
			var ls []PLit
			for l := range open {
				ls = append(ls, l)
			}
			rest[plitKey(ls)] = true
		}
	}
	return
}

func runP26(c *Ctx) {
	r := c.R
	nv := r.Range(1, 5)
	if r.P(20) {
		nv = 6
	} else if r.P(12) { // long clauses
		nv = r.Range(7, 10)
	}
	w := NewWorld(r, nv, r.P(25))
	for k := r.Range(1, 2); k > 0; k-- {
		n := p26formula(r, nv)
		g := w.Build(n)
		c.NT(g.Sprint(w.F))
		for s := r.Range(1, 4); s > 0; s-- {
			g = p26step(c, w, g)
			if len(g.Sprint(w.F)) > 3000 {
				c.Skip("too long")
			}
		}
	}
}

func p26step(c *Ctx, w *World, g f.Formula) f.Formula {
	r, nv, fac := c.R, w.N, w.F
	in := w.From(g)
	t := in.TT(nv)
	text := g.Sprint(fac)
	what := cut(text, 300)
	vars := f.Variables(fac, g)
	same := func(op string, x f.Formula) *Node {
		m := w.From(x)
		c.Check(m.TT(nv).Eq(t), "%s of %s changes the meaning: %s", op, what, cut(x.Sprint(fac), 300))
		for _, v := range f.Variables(fac, x).Content() {
			c.Check(vars.Contains(v), "%s of %s: new variable in %s", op, what, cut(x.Sprint(fac), 300))
		}
		return m
	}
	c.Obs("steps", 1)
	kind := r.Intn(9)
	if kind <= 1 && nv > 6 { // minimum covers of many primes are out of reach
		kind = 7
	}
	switch kind {
	case 0: // advanced
		cfg := &simplification.Config{FactorOut: r.Bool(), RestrictBackbone: r.Bool(), SimplifyNegations: r.Bool(),
			UseRatingFunction: r.P(70), RatingFunction: simplification.DefaultRatingFunction}
		atoms := r.P(25)
		if atoms {
			cfg.RatingFunction = func(fac f.Factory, x f.Formula) float64 { return float64(f.NumberOfAtoms(fac, x)) }
		}
		op := fmt.Sprintf("Advanced(factor=%v backbone=%v negations=%v rating=%v atoms=%v)", cfg.FactorOut, cfg.RestrictBackbone, cfg.SimplifyNegations, cfg.UseRatingFunction, atoms)
		c.Logf("%s of %s", op, what)
		var x f.Formula
		def := false
		if r.P(25) {
			op, def = "Advanced()", true
			x = simplification.Advanced(fac, g)
		} else {
			x = simplification.Advanced(fac, g, cfg)
		}
		same(op, x)
		if cfg.UseRatingFunction && !cfg.RestrictBackbone && !def {
			c.Check(cfg.RatingFunction(fac, x) <= cfg.RatingFunction(fac, g), "%s of %s is rated larger: %s", op, what, x.Sprint(fac))
		}
		c.Obs("advanced", 1)
		return x
	case 1:
		c.Logf("QMC of %s", what)
		x := simplification.QMC(fac, g)
		m := same("QMC", x)
		c.Check(isDNFN(m), "QMC of %s is no DNF: %s", what, x.Sprint(fac))
		if t.IsTrue() || t.IsFalse() {
			c.Check(m.K == KTrue && t.IsTrue() || m.K == KFalse && t.IsFalse(), "QMC of the constant %s: %s", what, x.Sprint(fac))
			c.Obs("two-level minimisations of constants", 1)
			return x
		}
		terms := termsOfN(m, KOr)
		imp := implicantsOf(t, nv)
		for _, ls := range terms {
			var q cube
			for _, l := range ls {
				q.mask |= 1 << uint(l.V)
				if l.Pos {
					q.val |= 1 << uint(l.V)
				}
			}
			c.Check(isPrimeIn(imp, q), "QMC of %s: term %v of %s is not prime", what, ls, x.Sprint(fac))
		}
		if nv <= 5 {
			best, ok := minCover(t, imp, nv, len(terms))
			if ok {
				c.Check(len(terms) == best, "QMC of %s: %d terms, minimum %d", what, len(terms), best)
				c.Obs("two-level minimisations compared with the minimum", 1)
			}
		}
		return x
	case 2:
		c.Logf("PropagateBackbone of %s", what)
		x := simplification.PropagateBackbone(fac, g)
		m := same("PropagateBackbone", x)
		if t.IsFalse() {
			c.Check(m.K == KFalse, "backbone propagation of the unsatisfiable %s: %s", what, x.Sprint(fac))
			return x
		}
		count := map[int]int{}
		for _, q := range litOccurrences(m) {
			count[q.V]++
		}
		top := map[PLit]bool{}
		ops := []*Node{m}
		if m.K == KAnd {
			ops = m.Ops
		}
		for _, o := range ops {
			if o.K == KLit {
				top[o.L] = true
			}
		}
		for _, v := range w.VarIdxSet(vars.Content()) {
			for _, ph := range []bool{false, true} {
				if t.Cof(v, !ph).IsFalse() {
					c.Check(top[PLit{v, ph}] && count[v] == 1, "backbone propagation of %s leaves the backbone literal v%d=%v: %s", what, v, ph, x.Sprint(fac))
					c.Obs("backbone literals propagated", 1)
				}
			}
		}
		return x
	case 3:
		c.Logf("PropagateUnits of %s", what)
		x := simplification.PropagateUnits(fac, g)
		m := w.From(x)
		c.Check(w.ProjTT(x).Eq(t), "PropagateUnits of %s changes the meaning: %s", what, cut(x.Sprint(fac), 300))
		if isCNFN(in) {
			for _, v := range f.Variables(fac, x).Content() {
				c.Check(vars.Contains(v), "PropagateUnits of the CNF %s: new variable in %s", what, x.Sprint(fac))
			}
			var cls [][]PLit
			if in.K == KFalse {
				cls = [][]PLit{{}}
			} else if in.K != KTrue {
				cls = termsOfN(in, KAnd)
			}
			units, rest, conflict := refUnits(cls)
			if conflict {
				c.Check(m.K == KFalse, "PropagateUnits of %s misses the conflict: %s", what, x.Sprint(fac))
				c.Obs("unit propagations with conflict", 1)
				return x
			}
			c.Check(m.K == KTrue || isCNFN(m), "PropagateUnits of %s is no CNF: %s", what, x.Sprint(fac))
			want := map[string]bool{}
			for l := range units {
				want[plitKey([]PLit{l})] = true
			}
			for k := range rest {
				want[k] = true
			}
			got := map[string]bool{}
			if m.K != KTrue {
				for _, cl := range termsOfN(m, KAnd) {
					if !isTautClause(cl) {
						got[plitKey(cl)] = true
					}
				}
			}
			c.Check(fmt.Sprint(got) == fmt.Sprint(want), "PropagateUnits of %s: clauses %v, expected %v", what, got, want)
			c.Obs("unit propagations compared", 1)
			c.Obs("units propagated", len(units))
		}
		if !w.OnlyBase(m) {
			return g
		}
		return x
	case 4:
		c.Logf("MinimizeNegations of %s", what)
		x := simplification.MinimizeNegations(fac, g)
		same("MinimizeNegations", x)
		c.Check(len(x.Sprint(fac)) <= len(text), "MinimizeNegations of %s is longer: %s", what, x.Sprint(fac))
		if x != g {
			c.Obs("negations reduced", 1)
		}
		return x
	case 5:
		c.Logf("FactorOut of %s", what)
		var x f.Formula
		rf := simplification.DefaultRatingFunction
		op := "FactorOut"
		switch r.Intn(4) {
		case 3: // a rating which often prefers the present formula
			op = "FactorOut by depth"
			rf = func(fac f.Factory, x f.Formula) float64 { return float64(depth26(w.From(x))) }
			x = simplification.FactorOut(fac, g, rf)
		case 0:
			x = simplification.FactorOut(fac, g)
		case 1:
			x = simplification.FactorOut(fac, g, rf)
		default:
			op = "FactorOut by atoms"
			rf = func(fac f.Factory, x f.Formula) float64 { return float64(f.NumberOfAtoms(fac, x)) }
			x = simplification.FactorOut(fac, g, rf)
		}
		same(op, x)
		c.Check(rf(fac, x) <= rf(fac, g), "%s of %s is rated larger: %s", op, what, x.Sprint(fac))
		if x != g {
			c.Obs("factors taken out", 1)
		}
		return x
	case 6:
		c.Logf("Distribute of %s", what)
		x := simplification.Distribute(fac, g)
		same("Distribute", x)
		if x != g {
			c.Obs("distributions", 1)
		}
		return x
	default:
		cnf := r.Bool()
		if r.P(80) { // an input of the right form
			cls := p26clauses(r, nv)
			in = clausesNode(cls)
			if !cnf {
				in = dualNode(in)
			}
			g = w.Build(in)
			in = w.From(g)
			t, text, vars = in.TT(nv), g.Sprint(fac), f.Variables(fac, g)
			what = cut(text, 300)
		}
		op, outer, fn := "CNFSubsumption", KAnd, simplification.CNFSubsumption
		right := normalform.IsCNF(fac, g)
		if !cnf {
			op, outer, fn = "DNFSubsumption", KOr, simplification.DNFSubsumption
			right = normalform.IsDNF(fac, g)
		}
		c.Logf("%s of %s", op, what)
		x, err := fn(fac, g)
		c.Check((err == nil) == right, "%s of %s: error %v", op, what, err)
		if err != nil {
			c.Obs("subsumptions refused", 1)
			return g
		}
		m := same(op, x)
		if in.K == KTrue || in.K == KFalse {
			c.Check(x == g, "%s of %s", op, what)
			return x
		}
		have := map[string]bool{}
		for _, cl := range termsOfN(in, outer) {
			have[plitKey(cl)] = true
		}
		out := termsOfN(m, outer)
		for i, a := range out {
			c.Check(have[plitKey(a)], "%s of %s: new clause or term in %s", op, what, x.Sprint(fac))
			for j, b := range out {
				c.Check(i == j || !subsetOf(a, b), "%s of %s: %v subsumes %v in %s", op, what, a, b, x.Sprint(fac))
			}
		}
		c.Obs("subsumptions", 1)
		c.Obs("clauses or terms subsumed", len(have)-len(out))
		return x
	}
}

// minCover finds the least number of prime implicants covering t, or gives up.
func minCover(t TT, imp map[cube]bool, nv, limit int) (int, bool) {
	var target uint32
	for a := uint64(0); a < 1<<uint(nv); a++ {
		if t.Get(a) {
			target |= 1 << a
		}
	}
	var sets []uint32
	for q := range imp {
		if !isPrimeIn(imp, q) {
			continue
		}
		var s uint32
		for a := uint64(0); a < 1<<uint(nv); a++ {
			if a&q.mask == q.val {
				s |= 1 << a
			}
		}
		sets = append(sets, s)
	}
	sort.Slice(sets, func(i, j int) bool { return sets[i] < sets[j] })
	budget := 200000
	var rec func(covered uint32, k int) bool
	rec = func(covered uint32, k int) bool {
		if covered == target {
			return true
		}
		if k == 0 || budget == 0 {
			return false
		}
		budget--
		// the uncovered assignment in the fewest sets
		bestA, bestN := -1, 1<<30
		for a := 0; a < 1<<uint(nv); a++ {
			if target>>uint(a)&1 == 1 && covered>>uint(a)&1 == 0 {
				n := 0
				for _, s := range sets {
					n += int(s >> uint(a) & 1)
				}
				if n < bestN {
					bestA, bestN = a, n
				}
			}
		}
		for _, s := range sets {
			if s>>uint(bestA)&1 == 1 && rec(covered|s, k-1) {
				return true
			}
		}
		return false
	}
	for k := 0; k <= limit; k++ {
		if rec(0, k) {
			return k, true
		}
		if budget == 0 {
			return 0, false
		}
	}
	return 0, false
}

func init() {
	register(&PropDef{ID: "P26", Quick: 40000, Thorough: 400000, Run: runP26,
		Rule: "chains of simplifiers on generated formulas (nested, clause sets with units and subsumed clauses, sums of products with common factors, many negations, constraints) over up to 6 variables, all option sets of the advanced simplifier",
		Need: []string{"advanced", "two-level minimisations compared with the minimum", "backbone literals propagated", "unit propagations compared", "units propagated", "unit propagations with conflict", "negations reduced", "factors taken out", "distributions", "subsumptions", "clauses or terms subsumed", "subsumptions refused"}})
}
