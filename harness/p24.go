package main

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
)

// cube is a set of literals over the variables of the mask.
type cube struct{ mask, val uint64 }

func (q cube) size() int { return bits.OnesCount64(q.mask) }

// cubeTT computes for every cube over the variables whether it implies t:
// result[cube] exists for implicants only.
func implicantsOf(t TT, nv int) map[cube]bool {
	out := map[cube]bool{}
	// a cube is an implicant if both its refinements by one more variable are
	var rec func(v int, q cube, x TT)
	rec = func(v int, q cube, x TT) {
		if v == nv {
			if x.IsTrue() {
				out[q] = true
			}
			return
		}
		rec(v+1, q, x)
		rec(v+1, cube{q.mask | 1<<uint(v), q.val}, x.Cof(v, false))
		rec(v+1, cube{q.mask | 1<<uint(v), q.val | 1<<uint(v)}, x.Cof(v, true))
	}
	rec(0, cube{}, t)
	return out
}

func isPrimeIn(imp map[cube]bool, q cube) bool {
	if !imp[q] {
		return false
	}
	for m := q.mask; m != 0; m &= m - 1 {
		b := m & -m
		if imp[cube{q.mask &^ b, q.val &^ b}] {
			return false
		}
	}
	return true
}

func runP24(c *Ctx) {
	r := c.R
	nv := r.Range(1, 6)
	if r.P(8) {
		nv = 7
	}
	w := NewWorld(r, nv, r.P(30))
	var n *Node
	switch x := r.Intn(10); {
	case x < 4:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 4)
		n = Gen(r, g)
	case x < 6:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 3)
		g.CC, g.PB, g.MaxCC = 3, 2, nv
		n = Gen(r, g)
	case x < 7: // terms
		n = clausesNode(GenClauses(r, nv, r.Range(1, 2*nv+2), 1, min(3, nv)))
		n = nNot(n)
	case x < 8: // a function given by its models: many primes
		var ms []*Node
		for a := uint64(0); a < 1<<uint(nv); a++ {
			if r.P(50) {
				var ls []*Node
				for v := 0; v < nv; v++ {
					ls = append(ls, nLit(v, a>>uint(v)&1 == 1))
				}
				ms = append(ms, nAnd(ls...))
			}
		}
		n = nOr(ms...)
		if nv > 5 {
			c.Skip("too many terms")
		}
	default:
		n = clausesNode(GenClauses(r, nv, r.Range(1, 3*nv+2), 1, min(3, nv)))
	}
	g := w.Build(n)
	t := n.TT(nv)
	c.Logf("formula %s", g.Sprint(w.F))
	what := cut(g.Sprint(w.F), 400)
	fvars := f.Variables(w.F, g)
	imp := implicantsOf(t, nv)
	cimp := implicantsOf(t.Not(), nv) // negated implicates
	conv := func(ls []f.Literal, neg bool) cube {
		mask, val, err := w.LitsAsg(ls)
		c.Check(err == "" && bits.OnesCount64(mask) == len(ls), "%s: literal set %v repeats or contradicts (%s)", what, ls, err)
		for _, l := range ls {
			c.Check(fvars.Contains(l.Variable()), "%s: foreign variable in a prime", what)
		}
		if neg {
			val = mask &^ val
		}
		return cube{mask, val}
	}
	primes := func(m map[cube]bool) (out []cube) {
		for q := range m {
			if isPrimeIn(m, q) {
				out = append(out, q)
			}
		}
		return
	}
	allImp, allCimp := primes(imp), primes(cimp)
	judge := func(name string, p *primeimplicant.PrimeResult, cs primeimplicant.CoverSort) {
		c.Check(p.CoverSort == cs, "%s of %s: cover sort %d", name, what, p.CoverSort)
		cover := func(part string, lists [][]f.Literal, neg bool, m map[cube]bool, want TT, all []cube, complete bool) {
			x := TTConst(nv, false)
			seen := map[cube]bool{}
			for _, ls := range lists {
				q := conv(ls, neg)
				c.Check(m[q], "%s of %s: %s %v is none", name, what, part, litStr(w, ls))
				c.Check(isPrimeIn(m, q), "%s of %s: %s %v is not prime", name, what, part, litStr(w, ls))
				c.Check(!seen[q], "%s of %s: %s %v twice", name, what, part, litStr(w, ls))
				seen[q] = true
				y := TTConst(nv, true)
				for v := 0; v < nv; v++ {
					if q.mask>>uint(v)&1 == 1 {
						l := TTVar(nv, v)
						if q.val>>uint(v)&1 == 0 {
							l = l.Not()
						}
						y = y.And(l)
					}
				}
				x = x.Or(y)
			}
			c.Check(x.Eq(want), "%s of %s: the %ss do not cover the formula", name, what, part)
			if complete {
				c.Check(len(seen) == len(all), "%s of %s: %d of %d prime %ss", name, what, len(seen), len(all), part)
				c.Obs("complete sets of prime "+part+"s", 1)
			}
			c.Obs("primes judged", len(lists))
		}
		cover("implicant", p.Implicants, false, imp, t, allImp, cs == primeimplicant.CoverImplicants)
		cover("implicate", p.Implicates, true, cimp, t.Not(), allCimp, cs == primeimplicant.CoverImplicates)
	}
	for i := r.Range(1, 4); i > 0; i-- {
		cs := pick(r, primeimplicant.CoverImplicants, primeimplicant.CoverImplicates)
		if r.Bool() {
			c.Logf("CoverMin %d", cs)
			judge(fmt.Sprintf("CoverMin(%d)", cs), primeimplicant.CoverMin(w.F, g, cs), cs)
		} else {
			c.Logf("CoverMax %d", cs)
			judge(fmt.Sprintf("CoverMax(%d)", cs), primeimplicant.CoverMax(w.F, g, cs), cs)
		}
	}
	c.Logf("Minimum")
	m, err := primeimplicant.Minimum(w.F, g)
	c.Check((err != nil) == t.IsFalse(), "minimum prime implicant of %s: error %v", what, err)
	if err == nil {
		best := nv + 1
		for q := range imp {
			best = min(best, q.size())
		}
		q := conv(m, false)
		c.Check(imp[q], "minimum prime implicant %s of %s is no implicant", litStr(w, m), what)
		// known finding minimum-implicant-nnf: only sets of literals that satisfy
		// the negation normal form syntactically are considered, which are all
		// implicants if it is a CNF without tautologies
		most := nv
		if !n.HasPB() {
			most = kleeneMin(w.From(normalform.NNF(w.F, g)), imp, nv)
			if most == best {
				c.Obs("minimum implicants judged exactly", 1)
			}
		}
		c.Check(q.size() >= best && q.size() <= most, "minimum prime implicant %s of %s has %d literals, minimum %d (at most %d expected)", litStr(w, m), what, q.size(), best, most)
		c.Obs("minimum implicants", 1)
		if n.HasPB() {
			c.Obs("minimum implicants of formulas with constraints", 1)
		}
	} else {
		c.Check(m == nil, "implicant of an unsatisfiable formula")
		c.Obs("minimum implicants of unsatisfiable formulas", 1)
	}
	c.NT(what)
}

// kleeneMin is the size of the smallest set of literals under which the
// three-valued evaluation of n is true.
func kleeneMin(n *Node, imp map[cube]bool, nv int) int {
	best := nv
	for q := range imp {
		if q.size() < best && kleene(n, q, true) {
			best = q.size()
		}
	}
	return best
}

func kleene(n *Node, q cube, want bool) bool {
	switch n.K {
	case KFalse:
		return !want
	case KTrue:
		return want
	case KLit:
		return q.mask>>uint(n.L.V)&1 == 1 && (q.val>>uint(n.L.V)&1 == 1) == (n.L.Pos == want)
	case KAnd, KOr:
		all := (n.K == KAnd) == want
		for _, o := range n.Ops {
			if kleene(o, q, want) != all {
				return !all
			}
		}
		return all
	}
	panic("no negation normal form")
}

// MUS histories: lists of propositions with duplicates and constraints.
func runP25(c *Ctx) {
	r := c.R
	nv := r.Range(1, 5)
	w := NewWorld(r, nv, r.P(30))
	k := r.Range(1, 9)
	var pn []*Node
	var ps []f.Proposition
	byProp := map[f.Proposition]int{}
	for i := 0; i < k; i++ {
		if i > 0 && r.P(10) { // the same proposition, or the same formula again
			j := r.Intn(i)
			pn = append(pn, pn[j])
			if r.Bool() {
				ps = append(ps, ps[j])
			} else {
				ps = append(ps, f.NewStandardProposition(ps[j].Formula()))
				byProp[ps[i]] = i
			}
			continue
		}
		var n *Node
		switch x := r.Intn(10); {
		case x < 5:
			n = clausesNode(GenClauses(r, nv, 1, 1, 3))
		case x < 6:
			n = nLit(r.Intn(nv), r.Bool())
		case x < 7:
			n = clausesNode(GenClauses(r, nv, 2, 1, 3))
		case x < 8 && nv > 1:
			g := stdCfg(r, nv)
			g.CC, g.PB, g.MaxCC, g.Depth = 3, 2, nv, 1
			n = Gen(r, g)
		default:
			g := stdCfg(r, nv)
			g.Depth = r.Range(0, 2)
			n = Gen(r, g)
		}
		pn = append(pn, n)
		x := w.Build(n)
		if r.Bool() {
			ps = append(ps, f.NewStandardProposition(x, fmt.Sprintf("p%d", i)))
		} else {
			ps = append(ps, f.NewStandardProposition(x))
		}
		byProp[ps[i]] = i
	}
	tts := make([]TT, k)
	for i, n := range pn {
		tts[i] = n.TT(nv)
		c.Logf("p%d: %s", i, ps[i].Formula().Sprint(w.F))
	}
	conj := func(base TT, idx []int) TT {
		for _, i := range idx {
			base = base.And(tts[i])
		}
		return base
	}
	top := TTConst(nv, true)
	all := seqInts(0, k-1)
	unsat := conj(top, all).IsFalse()
	indices := func(got []f.Proposition, what string) []int {
		var out []int
		used := map[f.Proposition]int{}
		for _, p := range got {
			i, ok := byProp[p]
			c.Check(ok, "%s: foreign proposition", what)
			used[p]++
			n := 0
			for _, q := range ps {
				if q == p {
					n++
				}
			}
			c.Check(used[p] <= n, "%s: proposition p%d listed too often", what, i)
			out = append(out, i)
		}
		return out
	}
	dup := func() []f.Proposition { return append([]f.Proposition{}, ps...) }
	algs := []string{"insertion", "deletion"}
	for _, a := range shuffled(r, algs) {
		in := dup()
		before := dup()
		c.Logf("%s", a)
		fn := mus.ComputeInsertionBased
		if a == "deletion" {
			fn = mus.ComputeDeletionBased
		}
		core, err := fn(w.F, &in)
		c.Check(len(in) == len(before), "%s: the given list has %d instead of %d propositions afterwards", a, len(in), len(before))
		for i := range in {
			c.Check(in[i] == before[i], "%s: the given list is changed", a)
		}
		if !unsat {
			c.Check(err != nil && core == nil, "%s: satisfiable set, but core %v and error %v", a, core, err)
			c.Obs("satisfiable sets", 1)
			continue
		}
		c.Check(err == nil && core != nil, "%s: unsatisfiable set, but error %v", a, err)
		c.Check(core.IsGuaranteedMUS, "%s: result is not marked minimal", a)
		idx := indices(core.Propositions, a)
		c.Check(conj(top, idx).IsFalse(), "%s: core %v is satisfiable", a, idx)
		for i := range idx {
			rest := append(append([]int{}, idx[:i]...), idx[i+1:]...)
			c.Check(!conj(top, rest).IsFalse(), "%s: core %v is unsatisfiable without p%d", a, idx, idx[i])
		}
		c.Obs("cores judged", 1)
		c.Obs(fmt.Sprintf("cores of size %d", len(idx)), 1)
	}
	// smallest ones, with additional constraints
	var addN []*Node
	var addF []f.Formula
	base := top
	if r.P(50) {
		for i := r.Range(1, 2); i > 0; i-- {
			n := clausesNode(GenClauses(r, nv, r.Range(1, 2), 1, 2))
			if r.P(20) {
				g := stdCfg(r, nv)
				g.Depth = 2
				n = Gen(r, g)
			}
			addN = append(addN, n)
			addF = append(addF, w.Build(n))
			base = base.And(n.TT(nv))
			c.Logf("additional %s", addF[len(addF)-1].Sprint(w.F))
		}
	}
	best := -1
	for m := 0; m < 1<<uint(k); m++ {
		if x := bits.OnesCount(uint(m)); best < 0 || x < best {
			var idx []int
			for i := 0; i < k; i++ {
				if m>>uint(i)&1 == 1 {
					idx = append(idx, i)
				}
			}
			if conj(base, idx).IsFalse() {
				best = x
			}
		}
	}
	for rounds := r.Range(1, 2); rounds > 0; rounds-- {
		if r.Bool() {
			c.Logf("smallest")
			got := smus.Compute(w.F, dup(), addF...)
			c.Check((got == nil) == (best < 0), "smallest set: found %v, expected size %d", got != nil, best)
			if got != nil {
				idx := indices(got, "smallest set")
				c.Check(conj(base, idx).IsFalse(), "smallest set %v is satisfiable", idx)
				c.Check(len(idx) == best, "smallest set %v, minimum %d", idx, best)
				c.Obs("smallest sets judged", 1)
				c.Obs(fmt.Sprintf("smallest sets of size %d", best), 1)
			}
		} else {
			c.Logf("smallest over formulas")
			var fs []f.Formula
			for _, p := range ps {
				fs = append(fs, p.Formula())
			}
			got := smus.ComputeForFormulas(w.F, fs, addF...)
			c.Check((got == nil) == (best < 0), "smallest set of formulas: found %v, expected size %d", got != nil, best)
			if got != nil {
				x := base
				for _, g := range got {
					x = x.And(w.From(g).TT(nv))
					in := false
					for _, o := range fs {
						in = in || o == g
					}
					c.Check(in, "smallest set of formulas contains %s", g.Sprint(w.F))
				}
				c.Check(x.IsFalse(), "smallest set of formulas is satisfiable")
				c.Check(len(got) == best, "smallest set of formulas has size %d, minimum %d", len(got), best)
				c.Obs("smallest sets judged", 1)
			}
		}
	}
	if best < 0 {
		c.Obs("satisfiable sets", 1)
	}
	var key []string
	for _, p := range ps {
		key = append(key, p.Formula().Sprint(w.F))
	}
	sort.Strings(key)
	c.NT(fmt.Sprint(key))
}

func init() {
	register(&PropDef{ID: "P24", Quick: 6000, Thorough: 150000, Run: runP24,
		Rule: "generated formulas, clause sets, term sets and functions given by their models over up to 7 variables, with cardinality and pseudo-Boolean constraints",
		Need: []string{"primes judged", "complete sets of prime implicants", "complete sets of prime implicates", "minimum implicants"}})
	probe("minimum-implicant-nnf", "P24", func(c *Ctx) {
		for _, t := range []struct {
			s string
			k int
		}{{"x & ~y | ~x & ~y", 1}, {"x | ~x & y | ~y", 0}} {
			w := NewWorldPlain(2, false)
			g, err := parser.New(w.F).Parse(t.s)
			c.Check(err == nil, "%v", err)
			m, err := primeimplicant.Minimum(w.F, g)
			c.Check(err == nil && len(m) == t.k, "minimum prime implicant of %s has %d literals instead of %d", t.s, len(m), t.k)
		}
	})
	probe("minimum-implicant-auxiliaries", "P24", func(c *Ctx) {
		w := NewWorldPlain(8, false)
		g := w.F.CC(f.LE, 3, w.Vars()...)
		m, err := primeimplicant.Minimum(w.F, g)
		c.Check(err == nil, "%v", err)
		for _, l := range m {
			c.Check(f.Variables(w.F, g).Contains(l.Variable()), "prime implicant of %s contains an auxiliary variable", g.Sprint(w.F))
		}
		c.Check(len(m) == 5, "prime implicant %s", litStr(w, m))
	})
	register(&PropDef{ID: "P25", Quick: 30000, Thorough: 250000, Run: runP25,
		Rule: "generated lists of 1 to 9 propositions over up to 5 variables with repeated propositions, repeated formulas, constraints and constants, and up to 2 additional constraints; all subsets are enumerated",
		Need: []string{"cores judged", "smallest sets judged", "satisfiable sets"}})
}
