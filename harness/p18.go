package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// caught runs a library call and returns what it panicked with.
func caught(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// hasGeneralPB reports constraints the compiling counter does not accept.
func hasGeneralPB(n *Node) bool {
	if n.K == KPBC {
		return true
	}
	if n.K == KCC && !((n.Cmp == LE || n.Cmp == EQ) && n.Rhs == 1) {
		return true
	}
	for _, o := range n.Ops {
		if hasGeneralPB(o) {
			return true
		}
	}
	return false
}

func hasPB(n *Node) bool {
	if n.K == KPBC || n.K == KCC {
		return true
	}
	for _, o := range n.Ops {
		if hasPB(o) {
			return true
		}
	}
	return false
}

// mapVars renames variable i to to[i].
func mapVars(n *Node, to []int) *Node {
	m := *n
	m.L.V = 0
	if n.K == KLit {
		m.L = PLit{to[n.L.V], n.L.Pos}
	}
	m.Ops, m.Lits = nil, nil
	for _, o := range n.Ops {
		m.Ops = append(m.Ops, mapVars(o, to))
	}
	for _, l := range n.Lits {
		m.Lits = append(m.Lits, PLit{to[l.V], l.Pos})
	}
	return &m
}

func amoNode(r *Rng, idx []int) *Node {
	n := &Node{K: KCC, Cmp: pick(r, LE, EQ), Rhs: 1}
	for _, v := range idx {
		n.Lits = append(n.Lits, PLit{v, true})
	}
	return n
}

func runP18(c *Ctx) {
	r := c.R
	nv := r.Range(1, 9)
	if r.P(2) {
		nv = r.Range(10, 12)
		c.Obs("counts over 10 to 12 variables", 1)
	}
	w := NewWorld(r, nv, r.P(12))
	w.F.PutConfiguration(randEncConfig(r))
	// formulas, often in disjoint components
	var ns []*Node
	k := r.Range(1, 4)
	perm := r.Perm(nv)
	for i := 0; i < k; i++ {
		sub := perm
		if r.P(50) && nv >= 3 {
			a := r.Intn(nv - 1)
			sub = perm[a:min(nv, a+r.Range(1, 4))]
		}
		var x *Node
		switch y := r.Intn(10); {
		case y < 2:
			x = clausesNode(GenClauses(r, len(sub), r.Range(1, 4), 1, 3))
		case y < 3:
			x = nLit(r.Intn(len(sub)), r.Bool())
		case y < 4 && len(sub) > 1:
			x = amoNode(r, r.Perm(len(sub))[:r.Range(2, len(sub))])
		case y < 5:
			g := stdCfg(r, len(sub))
			g.CC, g.PB, g.MaxCC, g.Depth = 2, 1, 4, r.Range(0, 2)
			x = Gen(r, g)
		default:
			g := stdCfg(r, len(sub))
			g.Depth = r.Range(0, 4)
			x = Gen(r, g)
		}
		ns = append(ns, mapVars(x, sub))
	}
	if r.P(10) {
		ns = append(ns, mapVars(ns[0], r.Perm(nv)))
	}
	all := nAnd(ns...)
	t := all.TT(nv)
	var fs []f.Formula
	for _, n := range ns {
		fs = append(fs, w.Build(n))
	}
	g := w.F.And(fs...)
	if r.P(40) {
		pollute(c, w, r, append([]f.Formula{g}, fs...), func(x f.Formula) bool { return !hasPB(w.From(x)) }, r.Range(1, 4))
	}
	c.Logf("formulas %s over %d variables", cut(g.Sprint(w.F), 400), nv)
	occ := map[int]bool{}
	for _, v := range w.VarIdxSet(f.Variables(w.F, fs...).Content()) {
		occ[v] = true
	}
	// covering variable set
	var vs []int
	for v := 0; v < nv; v++ {
		if occ[v] || r.P(60) {
			vs = append(vs, v)
		}
	}
	free := 0
	for _, v := range vs {
		if !occ[v] {
			free++
		}
	}
	extra := r.Intn(3) // variables nobody else uses
	vars := w.VarsOf(shuffled(r, vs))
	for i := 0; i < extra; i++ {
		vars = append(vars, w.F.Var(fmt.Sprintf("extra_%d", i)))
	}
	want := new(big.Int)
	{ // models over vs
		ex := t
		for v := 0; v < nv; v++ {
			in := false
			for _, x := range vs {
				in = in || x == v
			}
			if !in {
				ex = ex.Exists(v)
			}
		}
		n := int64(len(ex.Models())) >> uint(nv-len(vs))
		want.Lsh(big.NewInt(n), uint(extra))
	}
	check := func(what string, got *big.Int) {
		c.Check(got != nil && got.Cmp(want) == 0, "%s of %s over %d of its variables and %d others: %v, expected %v", what, cut(g.Sprint(w.F), 300), len(occ), len(vars)-len(occ), got, want)
		c.Obs(what, 1)
	}
	if want.Sign() > 0 && len(occ) > 1 {
		c.NT(g.Sprint(w.F))
	}
	order := r.Perm(5)
	for _, m := range order[:r.Range(2, 5)] {
		switch m {
		case 0: // compiling counter
			general := false
			for _, n := range ns {
				general = general || hasGeneralPB(n)
			}
			var cnt *big.Int
			var err error
			if r.Bool() {
				cnt, err = count.Count(w.F, vars, fs...)
			} else {
				hdl := &CancelAt{}
				var st handler.State
				cnt, err, st = count.CountWithHandler(w.F, vars, hdl, fs...)
				c.Check(st.Success, "counting reports cancellation")
			}
			if err != nil {
				c.Check(general, "compiling counter refuses %s: %v", g.Sprint(w.F), err)
				c.Obs("refused constraints", 1)
			} else {
				check("counts by compilation", cnt)
			}
			if len(occ) > 0 && r.P(15) && !general {
				drop := pick(r, w.VarIdxSet(f.Variables(w.F, fs...).Content())...)
				var vv []f.Variable
				for _, v := range vs {
					if v != drop {
						vv = append(vv, w.vars[v])
					}
				}
				var bad error
				p := caught(func() { _, bad = count.Count(w.F, vv, fs...) })
				c.Check(p != nil || bad != nil, "counting %s without its variable %s is not refused", g.Sprint(w.F), w.name[drop])
				c.Obs("refused variable sets", 1)
			}
		case 1: // solver iteration on the formula
			st, sd := randStrategy(r, w, vs)
			c.Logf("iterate with %s", sd)
			if r.P(30) {
				check("counts by iteration", count.OnFormula(w.F, g, vars))
			} else {
				cnt, state := count.OnFormulaWithConfig(w.F, g, vars, &iter.Config{Handler: handler.NopHandler, Strategy: st})
				c.Check(state.Success, "counting reports cancellation")
				check("counts by iteration", cnt)
			}
		case 2: // on a solver
			s := sat.NewSolver(w.F, randSatConfig(r))
			s.Add(fs...)
			st, _ := randStrategy(r, w, vs)
			ic := &iter.Config{Handler: handler.NopHandler, Strategy: st}
			if r.P(10) {
				ic = nil
			}
			cnt, _ := count.OnSolverWithConfig(s, vars, ic)
			check("counts on solvers", cnt)
			if r.Bool() {
				check("counts on solvers", count.OnSolver(s, vars))
			}
			c.Check(s.Sat() == (want.Sign() > 0), "solver is satisfiable: %v after counting %v models", !(want.Sign() > 0), want)
			// projected
			sub := r.Subset(nv, 50)
			ex := t
			in := map[int]bool{}
			for _, v := range sub {
				in[v] = true
			}
			for v := 0; v < nv; v++ {
				if !in[v] {
					ex = ex.Exists(v)
				}
			}
			n := int64(len(ex.Models())) >> uint(nv-len(sub))
			st2, sd := randStrategy(r, w, sub)
			got, _ := count.OnSolverWithConfig(s, w.VarsOf(sub), &iter.Config{Handler: handler.NopHandler, Strategy: st2})
			c.Check(got.Cmp(big.NewInt(n)) == 0, "projected count of %s on %v with %s: %v, expected %d", g.Sprint(w.F), sub, sd, got, n)
			c.Obs("projected counts", 1)
		case 3: // BDD: over the formula's own variables
			if !hasPB(all) {
				h := bdd.Compile(w.F, g).ModelCount()
				own := new(big.Int).Lsh(h, uint(len(vars)-len(occ)))
				check("counts by BDD", own)
			}
		case 4:
			if !hasPB(all) {
				d := dnnf.Compile(w.F, g)
				own := new(big.Int).Lsh(d.ModelCount(), uint(len(vars)-len(occ)))
				check("counts by DNNF", own)
			}
		}
	}
	_ = free
	c.Sample("%s: %v", cut(g.Sprint(w.F), 120), want)
}

// p18Large counts formulas with many models whose count is known by construction.
func p18Large(c *Ctx) {
	r := c.R
	fac := f.NewFactory()
	want := big.NewInt(1)
	var fs []f.Formula
	var vars []f.Variable
	k := r.Range(2, 40)
	satOnly := r.P(80)
	for i := 0; i < k; i++ {
		nv := r.Range(1, 5)
		n := clausesNode(GenClauses(r, nv, r.Range(1, 4), 1, 3))
		if r.P(30) {
			n = Gen(r, stdCfg(r, nv))
		}
		t := n.TT(nv)
		var b func(n *Node) f.Formula
		name := func(v int) string { return fmt.Sprintf("c%d_%d", i, v) }
		b = func(n *Node) f.Formula {
			switch n.K {
			case KFalse:
				return fac.Falsum()
			case KTrue:
				return fac.Verum()
			case KLit:
				return fac.Literal(name(n.L.V), n.L.Pos)
			case KNot:
				return fac.Not(b(n.Ops[0]))
			case KImpl:
				return fac.Implication(b(n.Ops[0]), b(n.Ops[1]))
			case KEquiv:
				return fac.Equivalence(b(n.Ops[0]), b(n.Ops[1]))
			}
			var ops []f.Formula
			for _, o := range n.Ops {
				ops = append(ops, b(o))
			}
			if n.K == KAnd {
				return fac.And(ops...)
			}
			return fac.Or(ops...)
		}
		if hasPB(n) || satOnly && len(t.Models()) == 0 {
			continue
		}
		fs = append(fs, b(n))
		for v := 0; v < nv; v++ {
			vars = append(vars, fac.Var(name(v)))
		}
		want.Mul(want, big.NewInt(int64(len(t.Models()))))
	}
	if len(fs) == 0 {
		c.Skip("no component")
		return
	}
	c.Logf("%d components, %d variables", len(fs), len(vars))
	got, err := count.Count(fac, vars, shuffled(r, fs)...)
	c.Check(err == nil && got.Cmp(want) == 0, "count of %d components over %d variables: %v, expected %v", len(fs), len(vars), got, want)
	if r.Bool() {
		got, err = count.Count(fac, vars, fac.And(fs...))
		c.Check(err == nil && got.Cmp(want) == 0, "count of one formula of %d components over %d variables: %v, expected %v", len(fs), len(vars), got, want)
	}
	if want.Sign() > 0 && !want.IsInt64() {
		c.Obs("counts beyond 63 bits", 1)
	}
	c.Obs("counts of many components", 1)
	c.NT(want.String())
}

func init() {
	register(&PropDef{ID: "P18", Quick: 100000, Thorough: 800000, CPU: 300,
		Run: func(c *Ctx) {
			if c.R.P(8) {
				p18Large(c)
			} else {
				runP18(c)
			}
		},
		Rule: "model counts by compilation, solver iteration with all strategies, decision diagrams and DNNF over covering variable sets with unused variables, projected counts, and products of many components with counts beyond 63 bits; compared with truth table counts",
		Need: []string{"counts by compilation", "counts by iteration", "counts on solvers", "counts by BDD", "counts by DNNF", "projected counts", "refused constraints", "refused variable sets", "counts beyond 63 bits"},
	})
}
