package main

import (
	"fmt"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// structKey is the one-level structural identity of a formula.
func structKey(fac f.Factory, g f.Formula) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:", g.Sort())
	switch g.Sort() {
	case f.SortLiteral:
		n, p, ok := fac.LiteralNamePhase(g)
		fmt.Fprintf(&b, "%q/%v/%v", n, p, ok)
	case f.SortNot:
		op, ok := fac.NotOperand(g)
		fmt.Fprintf(&b, "%d/%v", op, ok)
	case f.SortImpl, f.SortEquiv:
		x, y, ok := fac.BinaryLeftRight(g)
		fmt.Fprintf(&b, "%d,%d/%v", x, y, ok)
	case f.SortAnd, f.SortOr:
		ops, ok := fac.NaryOperands(g)
		fmt.Fprintf(&b, "%v/%v", ops, ok)
	case f.SortCC, f.SortPBC:
		cs, rhs, ls, cos, ok := fac.PBCOps(g)
		fmt.Fprintf(&b, "%d,%d,%v,%v,%v", cs, rhs, ls, cos, ok)
	}
	return b.String()
}

type hcMonitor struct {
	c     *Ctx
	fac   f.Factory
	byKey map[string]f.Formula
	key   map[f.Formula]string
	text  map[f.Formula]string
	order []f.Formula
}

// note registers a handle and all its subformulas.
func (m *hcMonitor) note(g f.Formula) {
	if _, ok := m.key[g]; ok {
		return
	}
	k := structKey(m.fac, g)
	m.c.sum.Checks++
	if h, ok := m.byKey[k]; ok && h != g {
		m.c.Failf("two handles %d and %d for the same construction %s", h, g, k)
	}
	m.byKey[k] = g
	m.key[g] = k
	m.order = append(m.order, g)
	m.text[g] = g.Sprint(m.fac)
	for _, o := range m.fac.Operands(g) {
		m.note(o)
	}
}

// recheck verifies that no noted formula changed and that rebuilding gives the
// same handle.
func (m *hcMonitor) recheck(when string) {
	fac := m.fac
	for _, g := range m.order {
		if k := structKey(fac, g); k != m.key[g] {
			m.c.Failf("%s: formula %d changed from %s to %s", when, g, m.key[g], k)
		}
		if s := g.Sprint(fac); s != m.text[g] {
			m.c.Failf("%s: formula %d printed %s before and %s now", when, g, cut(m.text[g], 300), cut(s, 300))
		}
		var h f.Formula
		switch g.Sort() {
		case f.SortTrue, f.SortFalse:
			h = fac.Constant(g.Sort() == f.SortTrue)
		case f.SortLiteral:
			n, p, _ := fac.LiteralNamePhase(g)
			h = fac.Literal(n, p)
		case f.SortNot:
			o, _ := fac.NotOperand(g)
			h = fac.Not(o)
		case f.SortImpl:
			x, y, _ := fac.BinaryLeftRight(g)
			h = fac.Implication(x, y)
		case f.SortEquiv:
			x, y, _ := fac.BinaryLeftRight(g)
			h = fac.Equivalence(x, y)
		case f.SortAnd:
			ops, _ := fac.NaryOperands(g)
			h = fac.And(append([]f.Formula{}, ops...)...)
		case f.SortOr:
			ops, _ := fac.NaryOperands(g)
			h = fac.Or(append([]f.Formula{}, ops...)...)
		case f.SortCC, f.SortPBC:
			cs, rhs, ls, cos, _ := fac.PBCOps(g)
			h = fac.PBC(cs, rhs, append([]f.Literal{}, ls...), append([]int{}, cos...))
			if g.Sort() == f.SortCC && !(cs == f.LT && rhs == 0) {
				vs, _ := f.LiteralsAsVariables(ls)
				if h2 := fac.CC(cs, uint32(rhs), vs...); h2 != g {
					m.c.Failf("%s: rebuilding %s as cardinality constraint gives handle %d instead of %d", when, m.text[g], h2, g)
				}
			}
			if g.Sort() == f.SortCC && cs == f.LT && rhs == 0 {
				h = g
			}
		}
		m.c.sum.Checks++
		if h != g {
			m.c.Failf("%s: rebuilding %s gives handle %d instead of %d", when, cut(m.text[g], 300), h, g)
		}
	}
}

func runP02(c *Ctx) {
	if c.Idx%40 == 11 {
		wide02(c)
		return
	}
	r := c.R
	if c.Idx%8 == 7 {
		p02collide(c)
		return
	}
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	m := &hcMonitor{c, fac, map[string]f.Formula{}, map[f.Formula]string{}, map[f.Formula]string{}, nil}
	var pool []f.Formula
	noPB := map[f.Formula]bool{}
	aux := map[f.Variable]bool{}
	rounds := r.Range(2, 4)
	for round := 0; round < rounds; round++ {
		for i := 0; i < 8; i++ {
			cfg := stdCfg(r, nv)
			cfg.Depth = r.Range(1, 3)
			cfg.MaxOps = 3
			cfg.CC, cfg.PB = r.Intn(2), r.Intn(2)
			n := Gen(r, cfg)
			g := w.Build(n)
			m.note(g)
			pool = append(pool, g)
			noPB[g] = !w.From(g).HasPB()
			c.NT(w.From(g).String())
			if h := w.Build(n); h != g {
				c.Failf("constructing %s twice gives handles %d and %d", n, g, h)
			}
			// slices passed in stay the caller's property
			switch r.Intn(4) {
			case 0:
				ops := []f.Formula{pool[r.Intn(len(pool))], g, pool[r.Intn(len(pool))]}
				h := fac.And(ops...)
				h2 := fac.Or(ops...)
				m.note(h)
				m.note(h2)
				for i := range ops {
					ops[i] = fac.Variable("clobber")
				}
			case 1:
				p := genPBC(r, GenCfg{NV: nv, MaxCC: 4, MaxCoef: 5, CCClean: true})
				ls, cs := w.Lits(p.Lits), append([]int{}, p.Coefs...)
				h := fac.PBC(csorts[p.Cmp], p.Rhs, ls, cs)
				m.note(h)
				for i := range ls {
					ls[i] = fac.Lit("clobber", true)
					cs[i] = -77
				}
			case 2:
				p := r.Perm(nv)[:r.Range(2, nv)]
				vs := w.VarsOf(p)
				ls := make([]f.Literal, len(vs))
				for i := range vs {
					ls[i] = fac.Lit(w.name[p[i]], r.Bool())
				}
				m.note(fac.CC(f.LE, 2, vs...))
				m.note(fac.Clause(ls...))
				m.note(fac.Minterm(ls...))
				for i := range vs {
					vs[i] = fac.Var("clobber")
					ls[i] = fac.Lit("clobber", false)
				}
			}
			// the same operand sequence written with nesting, constants and duplicates
			if k := r.Range(2, 5); true {
				var ops []f.Formula
				for j := 0; j < k; j++ {
					ops = append(ops, fac.Literal(w.name[r.Intn(nv)], r.Bool()))
				}
				cutAt := r.Range(1, k)
				a1 := fac.And(ops...)
				a2 := fac.And(fac.And(ops[:cutAt]...), fac.Verum(), fac.And(append(append([]f.Formula{}, ops[cutAt:]...), ops[0])...))
				c.Check(a1 == a2, "flattened conjunction [%s] has two handles", sprints(fac, ops))
				o1 := fac.Or(ops...)
				o2 := fac.Or(fac.Falsum(), fac.Or(ops[:cutAt]...), fac.Or(append(append([]f.Formula{}, ops[cutAt:]...), ops[0])...))
				c.Check(o1 == o2, "flattened disjunction [%s] has two handles", sprints(fac, ops))
				m.note(a1)
				m.note(o1)
			}
			av := fac.NewAuxVar(pick[f.AuxVarSort](r, f.AuxCNF, f.AuxCC, f.AuxPBC))
			c.Check(!aux[av] && m.key[av.AsFormula()] == "", "auxiliary variable handed out twice")
			aux[av] = true
			m.note(av.AsFormula())
			m.note(av.Negate(fac).AsFormula())
		}
		m.recheck("after construction")
		pollute(c, w, r, pool, func(g f.Formula) bool { return noPB[g] }, 6)
		m.recheck("after library calls")
	}
	c.Obs("handles monitored", len(m.order))
	c.Sample("%d handles, e.g. %s", len(m.order), cut(m.text[m.order[len(m.order)/2]], 300))
}

// p02collide fills the operand hash tables systematically.
func p02collide(c *Ctx) {
	r := c.R
	k := r.Range(40, 80)
	w := NewWorld(r, k, r.Bool())
	fac := w.F
	m := &hcMonitor{c, fac, map[string]f.Formula{}, map[f.Formula]string{}, map[f.Formula]string{}, nil}
	lits := make([]f.Literal, 0, 2*k)
	for i := 0; i < k; i++ {
		lits = append(lits, fac.Lit(w.name[i], true))
		if i < 12 {
			lits = append(lits, fac.Lit(w.name[i], false))
		}
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i] < lits[j] })
	type rec struct {
		a, b f.Literal
		h    [4]f.Formula
	}
	var recs []rec
	seen := map[f.Formula]string{}
	chk := func(h f.Formula, what string) {
		if o, ok := seen[h]; ok && o != what {
			c.Failf("%s and %s share handle %d (%s)", o, what, h, h.Sprint(fac))
		}
		seen[h] = what
	}
	for i, a := range lits {
		for j, b := range lits {
			if i == j || a.Variable() == b.Variable() {
				continue
			}
			rc := rec{a: a, b: b}
			rc.h[0] = fac.And(a.AsFormula(), b.AsFormula())
			rc.h[1] = fac.Or(a.AsFormula(), b.AsFormula())
			rc.h[2] = fac.Implication(a.AsFormula(), b.AsFormula())
			rc.h[3] = fac.Equivalence(a.AsFormula(), b.AsFormula())
			for q, h := range rc.h {
				chk(h, fmt.Sprintf("%d(%d,%d)", q, a, b))
				ops := fac.Operands(h)
				if len(ops) != 2 || ops[0] != a.AsFormula() || ops[1] != b.AsFormula() {
					c.Failf("operator %d over %s, %s reads back as %s", q, a.Sprint(fac), b.Sprint(fac), h.Sprint(fac))
				}
			}
			recs = append(recs, rc)
		}
	}
	for _, rc := range recs {
		a, b := rc.a.AsFormula(), rc.b.AsFormula()
		h := [4]f.Formula{fac.And(a, b), fac.Or(a, b), fac.Implication(a, b), fac.Equivalence(a, b)}
		c.Check(h == rc.h, "re-constructing operators over %s, %s gives different handles", a.Sprint(fac), b.Sprint(fac))
	}
	c.Obs("pairs in collision stress", len(recs))
	// longer operators which differ in two neighbouring operands only
	for q := 0; q < 4; q++ {
		pre := []f.Literal{lits[r.Intn(len(lits))]}
		if r.Bool() {
			pre = append(pre, lits[r.Intn(len(lits))])
		}
		var post []f.Literal
		if r.Bool() {
			post = append(post, lits[r.Intn(len(lits))])
		}
		used := map[f.Variable]bool{}
		dup := false
		for _, l := range append(append([]f.Literal{}, pre...), post...) {
			dup = dup || used[l.Variable()]
			used[l.Variable()] = true
		}
		if dup {
			continue
		}
		groups := map[uint64][][2]f.Literal{}
		var order []uint64
		for _, a := range lits {
			for _, b := range lits {
				if a.Variable() == b.Variable() || used[a.Variable()] || used[b.Variable()] {
					continue
				}
				k := uint64(a)*33 + uint64(b)
				if len(groups[k]) == 1 {
					order = append(order, k)
				}
				groups[k] = append(groups[k], [2]f.Literal{a, b})
			}
		}
		for _, k := range order[:min(len(order), 250)] {
			for _, p := range groups[k] {
				ls := append(append(append([]f.Literal{}, pre...), p[0], p[1]), post...)
				var h f.Formula
				switch q {
				case 0:
					h = fac.Or(f.LiteralsAsFormulas(ls)...)
				case 1:
					h = fac.And(f.LiteralsAsFormulas(ls)...)
				case 2:
					h = fac.Clause(ls...)
				default:
					h = fac.Minterm(ls...)
				}
				ops := fac.Operands(h)
				same := len(ops) == len(ls)
				for i := 0; same && i < len(ls); i++ {
					same = ops[i] == ls[i].AsFormula()
				}
				c.Check(same, "operator over %v reads back as %s", ls, h.Sprint(fac))
				m.note(h)
				c.Obs("longer operators in collision stress", 1)
				// constraints over the same literals
				cmp, rhs := csorts[(int(k)+q)%5], 2
				if (k/7)%2 == 0 {
					rhs = -1
				}
				co := make([]int, len(ls))
				allPos, plain := true, k%2 == 0
				for i := range co {
					co[i] = 1
					if !plain {
						co[i] = (i*int(k%5))%4 - 1
					}
					allPos = allPos && ls[i].IsPos()
				}
				if plain && allPos {
					rhs = 2
				}
				h = fac.PBC(cmp, rhs, append([]f.Literal{}, ls...), append([]int{}, co...))
				cs, rb, lb, cb, ok := fac.PBCOps(h)
				c.Check(ok && cs == cmp && rb == rhs && fmt.Sprint(lb, cb) == fmt.Sprint(ls, co), "constraint over %v, %v reads back as %s", ls, co, h.Sprint(fac))
				m.note(h)
				c.Obs("constraints over colliding literals", 1)
			}
		}
	}
	// constraints that differ in two neighbouring coefficients or literals only
	for q := 0; q < 60; q++ {
		vs := append([]f.Variable{}, w.vars[r.Intn(20):]...)[:r.Range(3, 6)]
		ls := f.VariablesAsLiterals(vs)
		co := make([]int, len(ls))
		for i := range co {
			co[i] = r.Range(-3, 3)
		}
		cmp, rhs := r.Intn(5), r.Range(-2, 3)
		i := r.Intn(len(ls) - 1)
		for d := -2; d <= 2; d++ {
			c2 := append([]int{}, co...)
			c2[i] += d
			c2[i+1] -= 33 * d
			h := fac.PBC(csorts[cmp], rhs, append([]f.Literal{}, ls...), c2)
			cs, rb, lb, cb, ok := fac.PBCOps(h)
			c.Check(ok && cs == csorts[cmp] && rb == rhs && fmt.Sprint(lb, cb) == fmt.Sprint(ls, c2), "constraint over %v, %v reads back as %s", ls, c2, h.Sprint(fac))
			m.note(h)
		}
	}
	// constraints: all comparators, small bounds, small coefficient vectors
	for pass := 0; pass < 2; pass++ {
		for cmp := 0; cmp < 5; cmp++ {
			for rhs := -3; rhs <= 6; rhs++ {
				for vs := 0; vs < 6; vs++ {
					base := w.vars[vs : vs+3]
					if rhs >= 0 && !(cmp == int(LT) && rhs == 0) {
						h := fac.CC(csorts[cmp], uint32(rhs), base...)
						chk(h, fmt.Sprintf("cc %d %d %d", cmp, rhs, vs))
					}
					for _, co := range [][]int{{1, 2, 3}, {2, 1, 3}, {-1, 1, 1}, {3, 2, 1}, {2, 2, 2}} {
						h := fac.PBC(csorts[cmp], rhs, f.VariablesAsLiterals(base), append([]int{}, co...))
						chk(h, fmt.Sprintf("pbc %d %d %d %v", cmp, rhs, vs, co))
						if pass == 0 {
							m.note(h)
						}
					}
				}
			}
		}
	}
	m.recheck("collision stress")
	c.Obs("constraints in collision stress", len(m.order))
	c.NT(fmt.Sprint("collide", k, c.Idx))
}

func init() {
	register(&PropDef{ID: "P02", Quick: 2400, Thorough: 40000, Run: runP02,
		Rule: "one case = a random construction history interleaved with library workloads (or a systematic operand-hash collision stress); every handle and its sub-handles are snapshotted and re-read, re-printed and re-built; non-trivial = distinct formulas built",
		Need: []string{"handles monitored", "pairs in collision stress", "constraints in collision stress", "constraints over colliding literals"}})
}
