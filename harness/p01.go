package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
)

// ttm computes truth tables by handle, one structural level at a time.
type ttm struct {
	w *World
	m map[f.Formula]TT
}

func (t *ttm) of(g f.Formula) TT {
	if x, ok := t.m[g]; ok {
		return x
	}
	w, n := t.w, t.w.N
	var r TT
	switch g.Sort() {
	case f.SortNot:
		op, ok := w.F.NotOperand(g)
		if !ok {
			panic(Violation{"negation has no operand"})
		}
		r = t.of(op).Not()
	case f.SortImpl, f.SortEquiv:
		a, b, ok := w.F.BinaryLeftRight(g)
		if !ok {
			panic(Violation{"binary operator has no operands"})
		}
		if g.Sort() == f.SortImpl {
			r = t.of(a).Not().Or(t.of(b))
		} else {
			r = t.of(a).Equiv(t.of(b))
		}
	case f.SortAnd, f.SortOr:
		ops, ok := w.F.NaryOperands(g)
		if !ok {
			panic(Violation{"n-ary operator has no operands"})
		}
		if g.Sort() == f.SortAnd {
			r = TTConst(n, true)
			for _, o := range ops {
				r = r.And(t.of(o))
			}
		} else {
			r = TTConst(n, false)
			for _, o := range ops {
				r = r.Or(t.of(o))
			}
		}
	default:
		r = w.from(g).TT(n)
	}
	t.m[g] = r
	return r
}

// shape checks the syntactic invariants of one freshly returned formula.
// raw marks formulas built by the non-condensing constructors.
func shapeErr(w *World, g f.Formula, raw bool) string {
	fac := w.F
	isC := func(x f.Formula) bool { return x.Sort() == f.SortTrue || x.Sort() == f.SortFalse }
	if g.IsConstant() != isC(g) {
		return "IsConstant wrong"
	}
	if g.IsAtomic() != (isC(g) || g.Sort() == f.SortLiteral || g.Sort() == f.SortCC || g.Sort() == f.SortPBC) {
		return "IsAtomic wrong"
	}
	switch g.Sort() {
	case f.SortTrue:
		if g != fac.Verum() || g != fac.Constant(true) {
			return "two true constants"
		}
	case f.SortFalse:
		if g != fac.Falsum() || g != fac.Constant(false) {
			return "two false constants"
		}
	case f.SortNot:
		op, ok := fac.NotOperand(g)
		if !ok {
			return "not operand"
		}
		if isC(op) || op.Sort() == f.SortLiteral || op.Sort() == f.SortNot {
			return "negated constant, literal or negation survives"
		}
		if ops := fac.Operands(g); len(ops) != 1 || ops[0] != op {
			return "Operands of negation disagree"
		}
		if g.IsPos() || !g.IsNeg() {
			return "negation polarity"
		}
	case f.SortImpl, f.SortEquiv:
		a, b, ok := fac.BinaryLeftRight(g)
		if !ok {
			return "binary operands"
		}
		if isC(a) || isC(b) {
			return "constant operand in binary operator"
		}
		if a == b && !w.Cons {
			return "trivial binary operator survives"
		}
		if fac.Not(a) == b && !w.Cons {
			return "binary operator over complementary operands survives"
		}
		if ops := fac.Operands(g); len(ops) != 2 || ops[0] != a || ops[1] != b {
			return "Operands of binary disagree"
		}
	case f.SortAnd, f.SortOr:
		ops, ok := fac.NaryOperands(g)
		if !ok {
			return "nary operands"
		}
		if len(ops) < 2 {
			return fmt.Sprintf("n-ary operator with %d operands", len(ops))
		}
		o2 := fac.Operands(g)
		if len(o2) != len(ops) {
			return "Operands of n-ary disagree"
		}
		seen := map[f.Formula]bool{}
		for i, o := range ops {
			if o2[i] != o {
				return "Operands of n-ary disagree"
			}
			if isC(o) {
				return "constant operand in n-ary operator"
			}
			if o.Sort() == g.Sort() {
				return "n-ary operator is not flattened"
			}
			if seen[o] && !raw {
				return "duplicate operand"
			}
			seen[o] = true
		}
		if !w.Cons && !raw {
			for _, o := range ops {
				if seen[fac.Not(o)] {
					return "complementary operands survive"
				}
			}
		}
	}
	if _, _, ok := fac.BinaryLeftRight(g); ok != (g.Sort() == f.SortImpl || g.Sort() == f.SortEquiv) {
		return "BinaryLeftRight answers for wrong sort"
	}
	if _, ok := fac.NaryOperands(g); ok != (g.Sort() == f.SortAnd || g.Sort() == f.SortOr) {
		return "NaryOperands answers for wrong sort"
	}
	if _, ok := fac.NotOperand(g); ok != (g.Sort() == f.SortNot) {
		return "NotOperand answers for wrong sort"
	}
	if _, _, ok := fac.LiteralNamePhase(g); ok != (g.Sort() == f.SortLiteral) {
		return "LiteralNamePhase answers for wrong sort"
	}
	if _, _, _, _, ok := fac.PBCOps(g); ok != (g.Sort() == f.SortCC || g.Sort() == f.SortPBC) {
		return "PBCOps answers for wrong sort"
	}
	return ""
}

func runP01(c *Ctx) {
	if c.Idx%83 == 11 {
		wide01(c)
		return
	}
	r := c.R
	nv := r.Range(1, 8)
	w := NewWorld(r, nv, r.P(40))
	t := &ttm{w, map[f.Formula]TT{}}
	fac := w.F
	pool := []f.Formula{}
	for i := 0; i < nv; i++ {
		pool = append(pool, fac.Literal(w.name[i], r.Bool()))
	}
	rawSet := map[f.Formula]bool{}
	varsOf := map[f.Formula]map[int]bool{}
	var vo func(g f.Formula) map[int]bool
	vo = func(g f.Formula) map[int]bool {
		if m, ok := varsOf[g]; ok {
			return m
		}
		m := map[int]bool{}
		for _, o := range fac.Operands(g) {
			for v := range vo(o) {
				m[v] = true
			}
		}
		switch g.Sort() {
		case f.SortLiteral, f.SortCC, f.SortPBC:
			w.From(g).vars(m)
		}
		varsOf[g] = m
		return m
	}
	steps := r.Range(20, 60)
	if c.Thorough {
		steps *= 3
	}
	sel := func() f.Formula {
		if r.P(8) {
			return fac.Constant(r.Bool())
		}
		if r.P(35) {
			return fac.Literal(w.name[r.Intn(nv)], r.Bool())
		}
		if r.P(50) && len(pool) > 6 {
			return pool[len(pool)-1-r.Intn(6)]
		}
		return pool[r.Intn(len(pool))]
	}
	selNC := func() f.Formula {
		g := sel()
		if r.P(25) {
			g = fac.Not(g)
		}
		return g
	}
	for s := 0; s < steps; s++ {
		var g f.Formula
		var want TT
		var ops []f.Formula
		raw := false
		desc := ""
		op := r.Intn(12)
		switch op {
		case 0:
			a := sel()
			ops = []f.Formula{a}
			want = t.of(a).Not()
			if r.Bool() {
				g = fac.Not(a)
			} else {
				g = a.Negate(fac)
			}
			desc = "not"
			if fac.Not(g) != a {
				c.Failf("double negation of %s is not the formula itself", a.Sprint(fac))
			}
		case 1, 2:
			a, b := selNC(), selNC()
			if r.P(12) {
				b = a
			} else if r.P(12) {
				b = fac.Not(a)
			}
			ops = []f.Formula{a, b}
			desc = "binary"
			if op == 1 {
				want = t.of(a).Not().Or(t.of(b))
				if r.Bool() {
					g = fac.Implication(a, b)
				} else {
					var err error
					g, err = fac.BinaryOperator(f.SortImpl, a, b)
					c.Check(err == nil, "BinaryOperator error %v", err)
				}
			} else {
				want = t.of(a).Equiv(t.of(b))
				if r.Bool() {
					g = fac.Equivalence(a, b)
				} else {
					var err error
					g, err = fac.BinaryOperator(f.SortEquiv, a, b)
					c.Check(err == nil, "BinaryOperator error %v", err)
				}
			}
		case 3, 4, 5, 6, 7, 8:
			k := r.Range(0, 5)
			if r.P(10) {
				k = r.Range(6, 30)
			}
			for i := 0; i < k; i++ {
				ops = append(ops, selNC())
			}
			if k > 1 && r.P(15) {
				ops[r.Intn(k)] = fac.Not(ops[r.Intn(k)])
			}
			if k > 1 && r.P(15) {
				ops[r.Intn(k)] = ops[r.Intn(k)]
			}
			before := append([]f.Formula{}, ops...)
			desc = "nary"
			if op < 6 {
				want = TTConst(nv, true)
				for _, o := range ops {
					want = want.And(t.of(o))
				}
				if r.P(70) {
					g = fac.And(ops...)
				} else {
					g, _ = fac.NaryOperator(f.SortAnd, ops...)
				}
			} else {
				want = TTConst(nv, false)
				for _, o := range ops {
					want = want.Or(t.of(o))
				}
				if r.P(70) {
					g = fac.Or(ops...)
				} else {
					g, _ = fac.NaryOperator(f.SortOr, ops...)
				}
			}
			for i := range before {
				c.Check(before[i] == ops[i], "constructor changed the caller's operand slice")
			}
		case 9:
			// clause / minterm over distinct variables
			p := r.Perm(nv)[:r.Range(0, nv)]
			var ls []f.Literal
			for _, v := range p {
				ls = append(ls, fac.Lit(w.name[v], r.Bool()))
			}
			for _, l := range ls {
				ops = append(ops, l.AsFormula())
			}
			if r.Bool() {
				want = TTConst(nv, false)
				for _, o := range ops {
					want = want.Or(t.of(o))
				}
				g = fac.Clause(ls...)
			} else {
				want = TTConst(nv, true)
				for _, o := range ops {
					want = want.And(t.of(o))
				}
				g = fac.Minterm(ls...)
			}
			desc = "clause/minterm"
		case 10:
			n := genCC(r, GenCfg{NV: nv, MaxCC: 8, CCClean: r.P(80)})
			if r.P(5) {
				n.Lits = nil
			}
			want = n.TT(nv)
			var vs []f.Variable
			for _, l := range n.Lits {
				vs = append(vs, w.vars[l.V])
			}
			desc = "cc " + n.String()
			switch {
			case n.Cmp == LE && n.Rhs == 1 && r.Bool():
				g = fac.AMO(vs...)
			case n.Cmp == EQ && n.Rhs == 1 && r.Bool():
				g = fac.EXO(vs...)
			default:
				g = fac.CC(csorts[n.Cmp], uint32(n.Rhs), vs...)
			}
			if len(vs) > 0 {
				c.readback(w, g, f.SortCC, n)
			}
		case 11:
			cfg := GenCfg{NV: nv, MaxCC: 6, MaxCoef: pick(r, 1, 3, 20), CCClean: r.P(60), Huge: pick(r, 0, 0, 30)}
			n := genPBC(r, cfg)
			if r.P(30) { // possibly a disguised cardinality constraint
				for i := range n.Coefs {
					n.Coefs[i] = 1
					if r.P(90) {
						n.Lits[i].Pos = true
					}
				}
				n.Rhs = r.Range(-1, len(n.Lits)+1)
			}
			if r.P(5) {
				n.Lits, n.Coefs = nil, nil
			}
			want = n.TT(nv)
			ls := w.Lits(n.Lits)
			g = fac.PBC(csorts[n.Cmp], n.Rhs, ls, append([]int{}, n.Coefs...))
			desc = "pbc " + n.String()
			if len(ls) > 0 {
				cc := true
				for i := range n.Lits {
					cc = cc && n.Lits[i].Pos && n.Coefs[i] == 1
				}
				cc = cc && n.Rhs >= 0
				if cc {
					c.readback(w, g, f.SortCC, n)
				} else {
					c.readback(w, g, f.SortPBC, n)
				}
			}
		}
		if raw {
			rawSet[g] = true
		}
		c.Logf("%s(%s) -> %s", desc, sprints(fac, ops), g.Sprint(fac))
		c.EqTT(t.of(g), want, "%s over [%s] yields %s", desc, cut(sprints(fac, ops), 500), cut(g.Sprint(fac), 500))
		if e := shapeErr(w, g, rawSet[g]); e != "" {
			c.Failf("%s over [%s] yields %s: %s", desc, cut(sprints(fac, ops), 500), cut(g.Sprint(fac), 500), e)
		}
		if w.Cons && len(ops) > 0 {
			// no constants involved: every variable is conserved
			hasConst := false
			m := map[int]bool{}
			for _, o := range ops {
				hasConst = hasConst || o.IsConstant()
				for v := range vo(o) {
					m[v] = true
				}
			}
			if !hasConst {
				c.Check(len(vo(g)) == len(m), "conserving factory lost variables: %s over [%s] yields %s", desc, cut(sprints(fac, ops), 500), cut(g.Sprint(fac), 500))
				c.Obs("conserving-mode variable checks", 1)
			}
		}
		c.Obs("constructed "+g.Sort().String(), 1)
		c.NT(w.From(g).String())
		if !g.IsConstant() && g.Sort() != f.SortLiteral && len(vo(g)) > 0 && w.From(g).Size() < 400 {
			pool = append(pool, g)
		}
	}
	// errors on wrong sorts
	for _, s := range []f.FSort{f.SortAnd, f.SortOr, f.SortNot, f.SortLiteral, f.SortCC, f.SortTrue} {
		if _, err := fac.BinaryOperator(s, pool[0], pool[0]); err == nil {
			c.Failf("BinaryOperator accepts sort %s", s)
		}
	}
	for _, s := range []f.FSort{f.SortImpl, f.SortEquiv, f.SortNot, f.SortLiteral, f.SortPBC, f.SortFalse} {
		if _, err := fac.NaryOperator(s, pool[0], pool[0]); err == nil {
			c.Failf("NaryOperator accepts sort %s", s)
		}
	}
	// literals and variables
	for i := 0; i < nv; i++ {
		v := w.vars[i]
		name, ok := fac.VarName(v)
		c.Check(ok && name == w.name[i], "variable name %q reads back as %q", w.name[i], name)
		for _, ph := range []bool{true, false} {
			l := fac.Lit(w.name[i], ph)
			nm, p, ok := fac.LitNamePhase(l)
			c.Check(ok && nm == w.name[i] && p == ph, "literal %s/%v reads back as %s/%v", w.name[i], ph, nm, p)
			c.Check(l.Variable() == v && l.IsPos() == ph && l.IsNeg() == !ph, "literal %s/%v: variable or polarity wrong", w.name[i], ph)
			c.Check(l.Negate(fac).Negate(fac) == l && l.Negate(fac) != l && l.Negate(fac).Variable() == v, "literal negation wrong")
			c.Check(l.AsFormula() == fac.Literal(w.name[i], ph) && l.AsFormula().Negate(fac) == l.Negate(fac).AsFormula(), "literal/formula views differ")
			l2, err := l.AsFormula().AsLiteral()
			c.Check(err == nil && l2 == l, "AsLiteral")
			v2, err := l.AsFormula().AsVariable()
			c.Check((err == nil) == ph && (!ph || v2 == v), "AsVariable")
		}
	}
	c.Sample("%d steps, last formula %s", steps, pool[len(pool)-1].Sprint(fac))
}

func (c *Ctx) readback(w *World, g f.Formula, sort f.FSort, n *Node) {
	c.Check(g.Sort() == sort, "constraint %s has sort %s instead of %s", n, g.Sort(), sort)
	cs, rhs, lits, coefs, ok := w.F.PBCOps(g)
	c.Check(ok && cmpOf(cs) == n.Cmp && rhs == n.Rhs && len(lits) == len(n.Lits) && len(coefs) == len(n.Lits), "constraint %s reads back as %s", n, g.Sprint(w.F))
	for i := range lits {
		co := 1
		if n.K == KPBC {
			co = n.Coefs[i]
		}
		c.Check(w.PLit(lits[i]) == n.Lits[i] && coefs[i] == co, "constraint %s reads back as %s", n, g.Sprint(w.F))
	}
}

func sprints(fac f.Factory, gs []f.Formula) string {
	s := ""
	for i, g := range gs {
		if i > 0 {
			s += "; "
		}
		s += cut(g.Sprint(fac), 200)
	}
	return s
}

func init() {
	register(&PropDef{ID: "P01", Quick: 16000, Thorough: 160000, Run: runP01,
		Rule: "one case = a random history of 20-60 constructor calls on one factory (both modes); each result is compared with the Boolean definition over all assignments and with the syntactic invariants; non-trivial = distinct resulting formula structures",
		Need: []string{"constructed And", "constructed Or", "constructed Not", "constructed PBC", "constructed CC", "conserving-mode variable checks"}})
}
