package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// ---- own structural walks ----------------------------------------------------

func walkDepth(n *Node) int {
	d := 0
	for _, o := range n.Ops {
		d = max(d, walkDepth(o)+1)
	}
	return d
}

func walkAtoms(n *Node) int {
	if len(n.Ops) == 0 {
		return 1
	}
	a := 0
	for _, o := range n.Ops {
		a += walkAtoms(o)
	}
	return a
}

func walkNodes(n *Node) int {
	a := 1 + len(n.Lits)
	for _, o := range n.Ops {
		a += walkNodes(o)
	}
	return a
}

func walkProfile(n *Node, m map[PLit]int) {
	if n.K == KLit {
		m[n.L]++
	}
	for _, l := range n.Lits {
		m[l]++
	}
	for _, o := range n.Ops {
		walkProfile(o, m)
	}
}

func isLitN(n *Node) bool { return n.K == KLit }
func isConstN(n *Node) bool {
	return n.K == KTrue || n.K == KFalse
}

func allOps(n *Node, p func(*Node) bool) bool {
	for _, o := range n.Ops {
		if !p(o) {
			return false
		}
	}
	return true
}

func isTermN(n *Node, k Kind) bool {
	return isLitN(n) || isConstN(n) || n.K == k && allOps(n, isLitN)
}
func isNNFN(n *Node) bool {
	return isLitN(n) || isConstN(n) || (n.K == KAnd || n.K == KOr) && allOps(n, isNNFN)
}

// isNormN: conjunction (outer) of disjunctions (inner) of literals.
func isNormN(n *Node, outer, inner Kind) bool {
	if isConstN(n) || isTermN(n, inner) {
		return true
	}
	return n.K == outer && allOps(n, func(o *Node) bool { return isLitN(o) || o.K == inner && allOps(o, isLitN) })
}
func isCNFN(n *Node) bool { return isNormN(n, KAnd, KOr) }
func isDNFN(n *Node) bool { return isNormN(n, KOr, KAnd) }
func isAIGN(n *Node) bool {
	return isLitN(n) || isConstN(n) || (n.K == KAnd || n.K == KNot) && allOps(n, isAIGN)
}

func (w *World) checkPreds(c *Ctx, g f.Formula) {
	n := w.From(g)
	t := func(got, want bool, what string) {
		c.Check(got == want, "%s(%s) = %v", what, cut(g.Sprint(w.F), 400), got)
	}
	t(normalform.IsNNF(w.F, g), isNNFN(n), "IsNNF")
	t(normalform.IsCNF(w.F, g), isCNFN(n), "IsCNF")
	t(normalform.IsDNF(w.F, g), isDNFN(n), "IsDNF")
	t(normalform.IsAIG(w.F, g), isAIGN(n), "IsAIG")
	t(normalform.IsMinterm(w.F, g), isTermN(n, KAnd), "IsMinterm")
	t(normalform.IsMaxterm(w.F, g), isTermN(n, KOr), "IsMaxterm")
	t(encoding.ContainsPBC(w.F, g), n.HasPB(), "ContainsPBC")
}

func (w *World) litNames(ls []f.Literal) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.Sprint(w.F))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (w *World) varNames(vs []f.Variable) string {
	return w.litNames(f.VariablesAsLiterals(vs))
}

var auxRe = regexp.MustCompile(`@[A-Z_]*[A-Z0-9_]+`)

// auxNorm renames auxiliary variables in order of first occurrence.
func auxNorm(s string) string {
	m := map[string]string{}
	return auxRe.ReplaceAllStringFunc(s, func(x string) string {
		if _, ok := m[x]; !ok {
			m[x] = fmt.Sprintf("@%d", len(m))
		}
		return m[x]
	})
}

// answers collects everything a formula's cached functions report, by name.
func (w *World) answers(g f.Formula, r *Rng, pb bool) map[string]string {
	fac := w.F
	a := map[string]string{}
	put := func(k string, v any) { a[k] = fmt.Sprint(v) }
	order := r.Perm(14)
	for _, o := range order {
		switch o {
		case 0:
			put("text", g.Sprint(fac))
		case 1:
			put("variables", w.varNames(f.Variables(fac, g).Content()))
		case 2:
			put("literals", w.litNames(f.Literals(fac, g).Content()))
		case 3:
			var s []string
			for _, x := range f.SubNodes(fac, g) {
				s = append(s, x.Sprint(fac))
			}
			put("subnodes", strings.Join(s, " ; "))
		case 4:
			put("depth", f.Depth(fac, g))
		case 5:
			put("atoms", f.NumberOfAtoms(fac, g))
		case 6:
			put("nodes", f.NumberOfNodes(fac, g))
		case 7:
			put("predicates", fmt.Sprint(normalform.IsNNF(fac, g), normalform.IsCNF(fac, g), normalform.IsDNF(fac, g), normalform.IsAIG(fac, g)))
		case 8:
			nnf := normalform.NNF(fac, g)
			if pb { // the order inside normalised constraints follows handle order
				put("NNF is equivalent", w.ProjTT(nnf).Eq(w.ProjTT(g)))
			} else {
				put("NNF", nnf.Sprint(fac))
			}
		case 9:
			if !pb {
				put("CNF", normalform.FactorizedCNF(fac, g).Sprint(fac))
			}
		case 10:
			if !pb {
				put("DNF", normalform.FactorizedDNF(fac, g).Sprint(fac))
			}
		case 11:
			if !pb {
				put("AIG", normalform.AIG(fac, g).Sprint(fac))
			}
		case 12:
			t := w.TTOf(simplification.Distribute(fac, g))
			put("distributed is equivalent", t.Eq(w.TTOf(g)))
		case 13:
			if !pb {
				put("satisfiable", sat.IsSatisfiable(fac, g))
				put("BDD count", bdd.Compile(fac, g).ModelCount())
				d := dnnf.Compile(fac, g)
				put("DNNF count", d.ModelCount())
			}
		}
	}
	return a
}

func runP03(c *Ctx) {
	r := c.R
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(25))
	fac := w.F
	var pool []f.Formula
	var nodes []*Node
	noPB := map[f.Formula]bool{}
	add := func(n *Node) f.Formula {
		g := w.Build(n)
		pool = append(pool, g)
		nodes = append(nodes, n)
		noPB[g] = !w.From(g).HasPB()
		return g
	}
	mk := func() *Node {
		cfg := stdCfg(r, nv)
		cfg.Depth = r.Range(1, 4)
		cfg.MaxOps = 3
		if r.P(40) {
			cfg.CC, cfg.PB = 1, 1
		}
		return Gen(r, cfg)
	}
	for i := 0; i < 5; i++ {
		n := mk()
		add(n)
		if len(nodes) > 1 && r.P(50) { // formulas sharing subformulas
			o := nodes[r.Intn(len(nodes))]
			k := pick(r, KAnd, KOr, KImpl, KEquiv)
			if n.Size()+o.Size() < 60 {
				if r.Bool() {
					n, o = o, n
				}
				add(&Node{K: k, Ops: []*Node{n, o}})
			}
		}
	}
	pollute(c, w, r, pool, func(g f.Formula) bool { return noPB[g] }, 14)
	for k := 0; k < 3; k++ {
		i := r.Intn(len(pool))
		g, n := pool[i], nodes[i]
		t := w.Twin()
		h := t.Build(n)
		sg, sh := g.Sprint(fac), h.Sprint(t.F)
		c.Check(sg == sh, "the same construction %s prints %s after a history and %s on a fresh factory", n, sg, sh)
		big := w.From(g).Size() > 45
		pb := !noPB[g]
		if big {
			continue
		}
		a1 := w.answers(g, r, pb)
		a2 := t.answers(h, r, pb)
		a3 := w.answers(g, r, pb)
		for key, v := range a2 {
			c.Check(a1[key] == v, "%s of %s is %s after a history and %s on a fresh factory", key, sg, cut(a1[key], 600), cut(v, 600))
			c.Check(a3[key] == v, "%s of %s is %s when asked again and %s on a fresh factory", key, sg, cut(a3[key], 600), cut(v, 600))
		}
		c.Obs("history/fresh comparisons", len(a2))
		// own walk
		m := w.From(g)
		prof := map[PLit]int{}
		walkProfile(m, prof)
		var vn, ln []string
		vprof := map[int]int{}
		for l, cnt := range prof {
			s := w.name[l.V]
			if !l.Pos {
				s = "~" + s
			}
			ln = append(ln, s)
			if vprof[l.V] == 0 {
				vn = append(vn, w.name[l.V])
			}
			vprof[l.V] += cnt
		}
		sort.Strings(vn)
		sort.Strings(ln)
		c.Check(a1["variables"] == strings.Join(vn, ","), "variables of %s are %s", sg, a1["variables"])
		c.Check(a1["literals"] == strings.Join(ln, ","), "literals of %s are %s", sg, a1["literals"])
		c.Check(a1["depth"] == fmt.Sprint(walkDepth(m)), "depth of %s is %s", sg, a1["depth"])
		c.Check(a1["atoms"] == fmt.Sprint(walkAtoms(m)), "atoms of %s: %s", sg, a1["atoms"])
		c.Check(a1["nodes"] == fmt.Sprint(walkNodes(m)), "nodes of %s: %s", sg, a1["nodes"])
		lp := f.LiteralProfile(fac, g)
		c.Check(len(lp) == len(prof), "literal profile of %s has %d entries", sg, len(lp))
		for l, cnt := range lp {
			c.Check(prof[w.PLit(l)] == cnt, "literal profile of %s counts %s %d times", sg, l.Sprint(fac), cnt)
		}
		vp := f.VariableProfile(fac, g)
		c.Check(len(vp) == len(vprof), "variable profile of %s has %d entries", sg, len(vp))
		for v, cnt := range vp {
			c.Check(vprof[w.PLit(v.AsLiteral()).V] == cnt, "variable profile of %s counts %s %d times", sg, v.Sprint(fac), cnt)
		}
		// subnodes: every distinct subformula exactly once, operands first
		subs := map[f.Formula]bool{}
		var walk func(x f.Formula)
		walk = func(x f.Formula) {
			if !subs[x] {
				subs[x] = true
				for _, o := range fac.Operands(x) {
					walk(o)
				}
			}
		}
		walk(g)
		listed := map[f.Formula]bool{}
		for _, x := range f.SubNodes(fac, g) {
			c.Check(subs[x] && !listed[x], "sub-nodes of %s list %s wrongly or twice", sg, x.Sprint(fac))
			for _, o := range fac.Operands(x) {
				c.Check(listed[o], "sub-nodes of %s list %s before its operand %s", sg, x.Sprint(fac), o.Sprint(fac))
			}
			listed[x] = true
			w.checkPreds(c, x)
		}
		c.Check(len(listed) == len(subs), "sub-nodes of %s: %d listed, %d exist", sg, len(listed), len(subs))
		// several formulas at once
		j := r.Intn(len(pool))
		both := map[int]bool{}
		m.vars(both)
		w.From(pool[j]).vars(both)
		got := w.VarIdxSet(f.Variables(fac, g, pool[j]).Content())
		c.Check(eqInts(got, sortedKeys(both)), "joint variables of %s and %s wrong", sg, pool[j].Sprint(fac))
		bl := map[PLit]int{}
		walkProfile(m, bl)
		walkProfile(w.From(pool[j]), bl)
		c.Check(f.Literals(fac, g, pool[j]).Size() == len(bl), "joint literals of %s and %s wrong", sg, pool[j].Sprint(fac))
		for l := range bl {
			c.Check(f.Literals(fac, g, pool[j]).Contains(w.Lit(l)), "joint literals of %s and %s miss %v", sg, pool[j].Sprint(fac), l)
		}
		if m.Size() > 1 {
			c.NT(sg)
		}
	}
	c.Sample("pool of %d formulas, e.g. %s", len(pool), cut(pool[len(pool)-1].Sprint(fac), 300))
}

func init() {
	register(&PropDef{ID: "P03", Quick: 4000, Thorough: 60000, Run: runP03,
		Rule: "one case = a factory with a random history of constructions and library calls (incl. cancelled ones); every cached function and transformation of a formula is compared with a fresh factory that only built this formula, with a repeated call, and with the harness's own structural walk; non-trivial = distinct compound formulas compared",
		Need: []string{"history/fresh comparisons"}})
}
