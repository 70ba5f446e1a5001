package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
)

// uniqueExt checks that every model of a CNF over base variables fixes all
// foreign variables (given the base assignment).
func (w *World) countExt(n *Node, base uint64, limit int) int {
	e := NewRefEnc()
	e.Assert(n)
	var asm []int32
	for v := 0; v < w.N; v++ {
		asm = append(asm, rl(e.Var(v), base>>uint(v)&1 == 1))
	}
	var fv []int
	for _, v := range n.Vars() {
		if v >= w.N {
			fv = append(fv, v)
		}
	}
	cnt := 0
	for cnt < limit {
		if ok, _ := e.S.Solve(asm...); !ok {
			return cnt
		}
		cnt++
		if len(fv) == 0 {
			return cnt
		}
		var bl []int32
		for _, v := range fv {
			bl = append(bl, rl(e.Var(v), !e.S.Val(e.Var(v))))
		}
		e.S.Add(bl...)
	}
	return cnt
}

func runP07(c *Ctx) {
	if c.Idx%61 == 11 {
		wide07(c)
		return
	}
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	mode := r.Intn(3)
	var state *normalform.CNFAuxState
	shared := r.P(60)
	if shared {
		state = normalform.NewCNFAuxState()
	}
	k := 1
	if shared {
		k = r.Range(2, 5)
	}
	var nodes []*Node
	var cnfs []f.Formula
	var names []string
	want := TTConst(nv, true)
	uniq := mode == 1
	var last *Node
	for i := 0; i < k; i++ {
		cfg := stdCfg(r, nv)
		cfg.MaxOps = 3
		cfg.Lit = r.Range(2, 5)
		cfg.Depth = r.Range(2, 4)
		if shared {
			cfg.OrW = 10
		}
		pb := r.P(20)
		if pb {
			cfg.Depth = r.Range(0, 2)
			cfg.CC, cfg.PB = 3, 2
		}
		n := Gen(r, cfg)
		if last != nil && r.P(50) { // reuse of earlier formulas as subformulas
			n = &Node{K: pick(r, KAnd, KOr, KImpl, KEquiv), Ops: shuffled(r, []*Node{n, last})}
			if r.Bool() {
				n = nNot(n)
			}
		}
		if n.Size() < 40 {
			last = n
		} else {
			last = nil
		}
		g := w.Build(n)
		if r.P(20) && !n.HasPB() { // already in NNF (formula == its own NNF)
			g = normalform.NNF(fac, g)
		}
		b := pick(r, 0, 0, 0, 0, 1, 2, 3, 4, 6, 8, 12, 100)
		if (b == 100 || b == 12) && (factSize(w.From(normalform.NNF(fac, g)), true, true) > 2000) {
			b = 4
		}
		var cnf f.Formula
		var how string
		switch mode {
		case 0:
			if shared {
				cnf = normalform.PGCNF(fac, g, b, state)
			} else {
				cnf = normalform.PGCNFWithBoundary(fac, g, b)
			}
			how = "Plaisted-Greenbaum"
		case 1:
			if shared {
				cnf = normalform.TseitinCNF(fac, g, b, state)
			} else {
				cnf = normalform.TseitinCNFWithBoundary(fac, g, b)
			}
			how = "Tseitin"
		default:
			cc := normalform.DefaultCNFConfig()
			cc.Algorithm = pick(r, normalform.CNFPlaistedGreenbaum, normalform.CNFTseitin, normalform.CNFAdvanced)
			cc.AtomBoundary = b
			cc.CreatedClauseBoundary = pick(r, 0, 1, 4, 20)
			cc.DistributionBoundary = pick(r, -1, 0, 2)
			cc.FallbackAlgorithmForAdvancedEncoding = pick(r, normalform.CNFPlaistedGreenbaum, normalform.CNFTseitin)
			if r.Bool() {
				fac.PutConfiguration(cc)
				cnf = normalform.CNF(fac, g)
			} else {
				cnf = normalform.CNF(fac, g, cc)
			}
			how = fmt.Sprintf("CNF %+v", *cc)
			uniq = false
		}
		c.Logf("%s boundary %d: %s -> %s", how, b, cut(g.Sprint(fac), 300), cut(cnf.Sprint(fac), 300))
		cn := w.From(cnf)
		c.Check(isCNFN(cn), "%s of %s (boundary %d) is no CNF: %s", how, g.Sprint(fac), b, cut(cnf.Sprint(fac), 400))
		t := w.From(g).TT(nv)
		c.EqTT(w.ProjTT(cnf), t, "%s of %s (boundary %d, step %d shared=%v) = %s", how, cut(g.Sprint(fac), 400), b, i, shared, cut(cnf.Sprint(fac), 400))
		nodes = append(nodes, n)
		cnfs = append(cnfs, cnf)
		names = append(names, cut(g.Sprint(fac), 200))
		want = want.And(t)
		if n.HasPB() {
			uniq = false
		}
		if !w.OnlyBase(cn) {
			c.NT(fmt.Sprint(how, b, names[i]))
			c.Obs("auxiliary CNFs", 1)
		} else {
			c.Obs("CNFs without auxiliaries", 1)
		}
		if uniq && !w.OnlyBase(cn) {
			ms := t.Models()
			if len(ms) > 0 {
				m := ms[r.Intn(len(ms))]
				x := w.countExt(cn, m, 3)
				c.Check(x == 1, "%s of %s: model %d extends to %d models", how, names[i], m, x)
				c.Obs("unique extensions checked", 1)
			}
		}
		if i > 0 {
			c.EqTT(w.ProjTT(cnfs...), want, "conjunction of %d shared CNFs of %v", i+1, names)
			c.Obs("shared-state conjunctions", 1)
		}
	}
	c.Sample("%v", names)
}

func init() {
	register(&PropDef{ID: "P07", Quick: 60000, Thorough: 900000, Run: runP07,
		Rule: "one case = a sequence of random formulas transformed with one (shared or fresh) auxiliary state, random boundary and configuration; each CNF and each conjunction is projected onto the original variables by an independent SAT procedure and compared with the truth table; Tseitin results also for unique extension; non-trivial = distinct results with auxiliary variables",
		Need: []string{"auxiliary CNFs", "CNFs without auxiliaries", "unique extensions checked", "shared-state conjunctions"}})
	probe("pgcnf-shared-state", "P07", func(c *Ctx) {
		w := NewWorldPlain(4, false)
		fac := w.F
		a, b, d, e := w.vars[0].AsFormula(), w.vars[1].AsFormula(), w.vars[2].AsFormula(), w.vars[3].AsFormula()
		sub := fac.Or(fac.And(a, b), d)
		big := fac.And(fac.Or(sub, e), fac.Or(fac.And(sub, e), a))
		st := normalform.NewCNFAuxState()
		normalform.PGCNF(fac, sub, 12, st)
		x := normalform.PGCNF(fac, big, 0, st)
		c.EqTT(w.ProjTT(x), w.TTOf(big), "PGCNF of %s after %s with the same state = %s", big.Sprint(fac), sub.Sprint(fac), x.Sprint(fac))
		sub2 := fac.And(fac.Or(fac.And(a, b), d), e)
		st = normalform.NewCNFAuxState()
		normalform.PGCNF(fac, sub2, 12, st)
		big = fac.Or(sub2, fac.And(a, e))
		x = normalform.PGCNF(fac, big, 0, st)
		c.EqTT(w.ProjTT(x), w.TTOf(big), "PGCNF of %s after %s with the same state = %s", big.Sprint(fac), sub2.Sprint(fac), x.Sprint(fac))
	})
}
