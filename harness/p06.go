package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/normalform"
)

// cnfClauses counts clauses the factorised CNF would have before condensing.
func factSize(n *Node, pol, cnf bool) int {
	const capv = 1 << 20
	prod := func(a, b int) int { return min(capv, a*b) }
	sum := func(a, b int) int { return min(capv, a+b) }
	switch n.K {
	case KNot:
		return factSize(n.Ops[0], !pol, cnf)
	case KImpl:
		a, b := factSize(n.Ops[0], !pol, cnf), factSize(n.Ops[1], pol, cnf)
		if pol == cnf {
			return prod(a, b)
		}
		return sum(a, b)
	case KEquiv:
		x, y := n.Ops[0], n.Ops[1]
		xp, xn, yp, yn := factSize(x, true, cnf), factSize(x, false, cnf), factSize(y, true, cnf), factSize(y, false, cnf)
		if !pol {
			yp, yn = yn, yp
		}
		if cnf {
			return sum(prod(xn, yp), prod(xp, yn))
		}
		return prod(sum(xn, yp), sum(xp, yn))
	case KAnd, KOr:
		conj := (n.K == KAnd) == pol
		if conj == cnf {
			t := 0
			for _, o := range n.Ops {
				t = sum(t, factSize(o, pol, cnf))
			}
			return t
		}
		t := 1
		for _, o := range n.Ops {
			t = prod(t, factSize(o, pol, cnf))
		}
		return t
	}
	return 1
}

func runP06(c *Ctx) {
	if c.Idx%83 == 11 {
		wide06(c)
		return
	}
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(25))
	fac := w.F
	pb := r.P(35)
	if r.P(50) { // history on the factory
		var pool []f.Formula
		for i := 0; i < 3; i++ {
			pool = append(pool, w.Build(Gen(r, GenCfg{NV: nv, Depth: 2, MaxOps: 3, Lit: 4, NotW: 1, ImplW: 1, EquivW: 1, AndW: 2, OrW: 2})))
		}
		pollute(c, w, r, pool, func(f.Formula) bool { return true }, 3)
	}
	for k := 0; k < 3; k++ {
		cfg := stdCfg(r, nv)
		if pb {
			cfg.Depth = r.Range(0, 2)
			cfg.CC, cfg.PB = 4, 3
		}
		n := Gen(r, cfg)
		g := w.Build(n)
		tt := n.TT(nv)
		txt := cut(g.Sprint(fac), 400)
		m := w.From(g)
		hasPB := m.HasPB()
		c.Logf("%s", txt)
		// negated forms must be complements as well
		h, ht := g, tt
		if r.P(40) {
			h, ht = g.Negate(fac), tt.Not()
		}
		form := func(name string, x f.Formula, is func(*Node) bool, pred func(f.Factory, f.Formula) bool) {
			xn := w.From(x)
			c.Check(is(xn), "%s of %s is not in that form: %s", name, h.Sprint(fac), cut(x.Sprint(fac), 400))
			if pred != nil {
				c.Check(pred(fac, x), "predicate rejects the %s of %s: %s", name, h.Sprint(fac), cut(x.Sprint(fac), 400))
			}
			if !hasPB || w.OnlyBase(xn) {
				c.EqTT(w.TTOf(x), ht, "%s of %s = %s", name, cut(h.Sprint(fac), 400), cut(x.Sprint(fac), 400))
			} else {
				c.EqTT(w.ProjTT(x), ht, "projected %s of %s = %s", name, cut(h.Sprint(fac), 400), cut(x.Sprint(fac), 400))
			}
			w.checkPreds(c, x)
			if xn.Size() > 2 {
				c.NT(name + txt)
			}
			c.Obs(name, 1)
		}
		w.checkPreds(c, g)
		hm := w.From(h)
		aux := hasPB
		ccfg := normalform.DefaultCNFConfig()
		ccfg.AtomBoundary = pick(r, 0, 0, 2, 4, 8, 12)
		ccfg.CreatedClauseBoundary = pick(r, -1, 0, 1, 3, 10, 1000)
		ccfg.DistributionBoundary = pick(r, -1, -1, 0, 1, 5)
		if ccfg.CreatedClauseBoundary == -1 && ccfg.DistributionBoundary == -1 && (aux || factSize(hm, true, true) > 3000) {
			ccfg.CreatedClauseBoundary = 100
		}
		if r.Bool() {
			ccfg.FallbackAlgorithmForAdvancedEncoding = normalform.CNFPlaistedGreenbaum
		}
		cnf := normalform.CNF(fac, h, ccfg)
		c.Check(isCNFN(w.From(cnf)), "CNF (%+v) of %s is %s", *ccfg, h.Sprint(fac), cut(cnf.Sprint(fac), 400))
		c.EqTT(w.ProjTT(cnf), ht, "projected CNF (%+v) of %s = %s", *ccfg, cut(h.Sprint(fac), 400), cut(cnf.Sprint(fac), 400))
		if !w.OnlyBase(w.From(cnf)) && !hasPB {
			c.Obs("bounded CNF fell back to auxiliary encoding", 1)
		}
		form("NNF", normalform.NNF(fac, h), isNNFN, normalform.IsNNF)
		if !aux || r.P(50) {
			if factSize(hm, true, true) < 3000 && (!hasPB || n.Size() < 12 && cheapPB(m)) {
				form("factorised CNF", normalform.FactorizedCNF(fac, h), isCNFN, normalform.IsCNF)
			}
		}
		if !aux && factSize(hm, true, false) < 3000 {
			form("factorised DNF", normalform.FactorizedDNF(fac, h), isDNFN, normalform.IsDNF)
		}
		if hasPB || simpleEquivs(hm) {
			form("AIG", normalform.AIG(fac, h), isAIGN, normalform.IsAIG)
		} else { // known finding aig-equivalence: the syntax is not judged
			form("AIG", normalform.AIG(fac, h), func(*Node) bool { return true }, nil)
		}
		if !hasPB {
			form("BDD CNF", bdd.CNF(fac, h), isCNFN, normalform.IsCNF)
			form("BDD DNF", bdd.DNF(fac, h), isDNFN, normalform.IsDNF)
		}
		p06canonical(c, w, h, ht)
	}
	c.Sample("seen %d formulas", 3)
}

// simpleEquivs: all operands of equivalences are and-inverter graphs already.
func simpleEquivs(n *Node) bool {
	if n.K == KEquiv && !allOps(n, isAIGN) {
		return false
	}
	return allOps(n, simpleEquivs)
}

func cheapPB(n *Node) bool { return n.Size() <= 6 }

// canonical forms: one full clause/term per falsifying/satisfying assignment.
func p06canonical(c *Ctx, w *World, h f.Formula, ht TT) {
	fac := w.F
	vs := w.From(h).Vars()
	// assignments over vs only
	proj := func(t TT) map[uint64]bool {
		m := map[uint64]bool{}
		var mask uint64
		for _, v := range vs {
			mask |= 1 << uint(v)
		}
		for _, a := range t.Models() {
			m[a&mask] = true
		}
		return m
	}
	check := func(name string, x f.Formula, want map[uint64]bool, outer, inner f.FSort, flip bool) {
		var parts []f.Formula
		switch {
		case len(vs) == 0 || x.IsConstant():
			ok := (name == "canonical DNF" && (x.Sort() == f.SortFalse) == (len(want) == 0)) ||
				(name == "canonical CNF" && (x.Sort() == f.SortTrue) == (len(want) == 0))
			c.Check(ok && x.IsConstant(), "%s of %s is %s", name, h.Sprint(fac), cut(x.Sprint(fac), 300))
			return
		case x.Sort() == outer && !(len(want) == 1 && len(vs) > 1):
			parts = append(parts, fac.Operands(x)...)
		default:
			parts = []f.Formula{x}
		}
		got := map[uint64]bool{}
		for _, p := range parts {
			var ls []f.Literal
			if p.Sort() == inner {
				for _, o := range fac.Operands(p) {
					c.Check(o.Sort() == f.SortLiteral, "%s of %s contains %s", name, h.Sprint(fac), p.Sprint(fac))
					ls = append(ls, f.Literal(o))
				}
			} else if p.Sort() == f.SortLiteral {
				ls = []f.Literal{f.Literal(p)}
			} else {
				c.Failf("%s of %s contains %s", name, h.Sprint(fac), p.Sprint(fac))
			}
			mask, val, e := w.LitsAsg(ls)
			var full uint64
			for _, v := range vs {
				full |= 1 << uint(v)
			}
			if flip {
				val = mask &^ val
			}
			c.Check(e == "" && mask == full, "%s of %s: part %s is not over all variables (%s)", name, h.Sprint(fac), p.Sprint(fac), e)
			c.Check(!got[val], "%s of %s has part %s twice", name, h.Sprint(fac), p.Sprint(fac))
			c.Check(want[val], "%s of %s has wrong part %s", name, h.Sprint(fac), p.Sprint(fac))
			got[val] = true
		}
		c.Check(len(got) == len(want), "%s of %s has %d parts, expected %d", name, h.Sprint(fac), len(got), len(want))
		c.Obs(name, 1)
	}
	check("canonical DNF", enum.CanonicalDNF(fac, h), proj(ht), f.SortOr, f.SortAnd, false)
	check("canonical CNF", enum.CanonicalCNF(fac, h), proj(ht.Not()), f.SortAnd, f.SortOr, true)
}

func init() {
	register(&PropDef{ID: "P06", Quick: 15000, Thorough: 250000, Run: runP06,
		Rule: "one case = 3 random formulas (optionally with constraints and after a factory history); every normal form's syntax is re-checked by an own recogniser, the library predicate compared with it, and its truth table (projected over auxiliary variables for encoded constraints) with the source; non-trivial = distinct (form, formula) with a compound result",
		Need: []string{"NNF", "factorised CNF", "factorised DNF", "AIG", "BDD CNF", "BDD DNF", "canonical DNF", "canonical CNF", "bounded CNF fell back to auxiliary encoding"}})
	probe("aig-equivalence", "P06", func(c *Ctx) {
		fac := f.NewFactory()
		a, b, d := fac.Variable("a"), fac.Variable("b"), fac.Variable("c")
		for _, g := range []f.Formula{fac.Equivalence(a, fac.Or(b, d)), fac.Equivalence(fac.Implication(a, b), d), fac.Equivalence(fac.Equivalence(a, b), d)} {
			x := normalform.AIG(fac, g)
			c.Check(normalform.IsAIG(fac, x), "AIG of %s is %s", g.Sprint(fac), x.Sprint(fac))
		}
	})
	probe("aig-negated-constraint", "P06", func(c *Ctx) {
		w := NewWorldPlain(12, false)
		g := w.F.Not(w.F.AMO(w.vars...))
		n := &Node{K: KCC, Cmp: LE, Rhs: 1}
		for i := 0; i < 12; i++ {
			n.Lits = append(n.Lits, PLit{i, true})
		}
		c.EqTT(w.ProjTT(normalform.AIG(w.F, g)), nNot(n).TT(12), "projected AIG of %s", g.Sprint(w.F))
	})
	_ = fmt.Sprint
}
