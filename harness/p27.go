package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/transformation"
)

// composeTT evaluates n where variable v has the value img[v](assignment).
func composeTT(nv int, n *Node, img func(v int, asg uint64) bool) TT {
	t := NewTT(nv)
	for a := uint64(0); a < 1<<uint(nv); a++ {
		var b uint64
		for v := 0; v < nv; v++ {
			if img(v, a) {
				b |= 1 << uint(v)
			}
		}
		if n.Eval(b) {
			t.Set(a)
		}
	}
	return t
}

// pbOver reports the constraints of a formula.
func constraintsOf(n *Node) []*Node {
	if n.Lits != nil || n.K == KPBC {
		return []*Node{n}
	}
	var out []*Node
	for _, o := range n.Ops {
		out = append(out, constraintsOf(o)...)
	}
	return out
}

func p27gen(r *Rng, nv int) *Node {
	g := stdCfg(r, nv)
	g.Depth = r.Range(0, 4)
	if r.P(40) {
		g.CC, g.PB, g.MaxCC = 3, 3, nv
		g.Depth = r.Range(0, 3)
	}
	if r.P(10) {
		return &Node{K: KPBC, Cmp: Cmp(r.Intn(5)), Rhs: r.Range(-3, 5), Lits: []PLit{{r.Intn(nv), r.Bool()}, {r.Intn(nv), r.Bool()}, {r.Intn(nv), r.Bool()}},
			Coefs: []int{r.Range(-3, 3), r.Range(1, 3), r.Range(-3, -1)}}
	}
	return Gen(r, g)
}

func runP27(c *Ctx) {
	if c.Idx%199 == 11 {
		wide27(c)
		return
	}
	r := c.R
	nv := r.Range(1, 6)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	if r.P(15) {
		pollute(c, w, r, []f.Formula{w.Build(p27gen(r, nv))}, func(g f.Formula) bool { return !w.From(g).HasPB() }, 2)
	}
	cur := w.Build(p27gen(r, nv))
	c.NT(cur.Sprint(fac))
	var an *transformation.Anonymizer
	anPrefix := ""
	anMap := map[int]string{}
	for s := r.Range(1, 4); s > 0; s-- {
		in := w.From(cur)
		if in.Size() > 300 {
			return
		}
		what := cut(cur.Sprint(fac), 300)
		inVars := in.Vars()
		isIn := map[int]bool{}
		for _, v := range inVars {
			isIn[v] = true
		}
		t := in.TT(nv)
		c.Obs("steps", 1)
		switch r.Intn(6) {
		case 0: // formula substitution
			sub := transformation.NewSubstitution()
			img := map[int]*Node{}
			desc := []string{}
			m := map[f.Variable]f.Formula{}
			simple := r.P(50)
			for v := 0; v < nv; v++ {
				if !r.P(50) {
					continue
				}
				g := stdCfg(r, nv)
				g.Depth = r.Range(0, 2)
				if simple {
					g.Depth = 0
				}
				var x f.Formula
				if r.P(15) {
					x = w.Build(nLit(v, true)) // identity
				} else {
					x = w.Build(Gen(r, g))
				}
				img[v] = w.From(x)
				desc = append(desc, fmt.Sprintf("%s -> %s", w.name[v], x.Sprint(fac)))
				if r.Bool() {
					sub.AddVar(w.vars[v], w.Build(nLit(r.Intn(nv), true))) // overwritten below
					sub.AddVar(w.vars[v], x)
				} else {
					m[w.vars[v]] = x
				}
			}
			sub.AddMapping(m)
			c.Logf("substitute %v in %s", desc, what)
			bad := false
			for _, k := range constraintsOf(in) {
				for _, l := range k.Lits {
					if x, ok := img[l.V]; ok && x.K != KLit && x.K != KTrue && x.K != KFalse {
						bad = true
					}
				}
			}
			x, err := transformation.Substitute(fac, cur, sub)
			c.Check((err != nil) == bad, "substituting %v in %s: error %v", desc, what, err)
			if bad {
				c.Obs("substitutions refused", 1)
				continue
			}
			want := composeTT(nv, in, func(v int, a uint64) bool {
				if q, ok := img[v]; ok {
					return q.Eval(a)
				}
				return a>>uint(v)&1 == 1
			})
			out := w.From(x)
			c.Check(out.TT(nv).Eq(want), "substituting %v in %s gives %s", desc, what, cut(x.Sprint(fac), 300))
			allowed := map[int]bool{}
			for _, v := range inVars {
				if q, ok := img[v]; ok {
					for _, u := range q.Vars() {
						allowed[u] = true
					}
				} else {
					allowed[v] = true
				}
			}
			for _, v := range out.Vars() {
				c.Check(allowed[v], "substituting %v in %s leaves variable %d: %s", desc, what, v, cut(x.Sprint(fac), 300))
			}
			again, _ := transformation.Substitute(fac, cur, sub)
			c.Check(again == x, "substituting %v in %s again gives another formula", desc, what)
			c.Obs("formula substitutions", 1)
			if in.HasPB() && len(img) > 0 {
				c.Obs("formula substitutions into constraints", 1)
			}
			cur = x
		case 1: // literal substitution
			sub := map[f.Literal]f.Literal{}
			img := map[PLit]PLit{}
			desc := []string{}
			for v := 0; v < nv; v++ {
				for _, ph := range []bool{true, false} {
					if r.P(35) {
						from, to := PLit{v, ph}, PLit{r.Intn(nv), r.Bool()}
						img[from] = to
						sub[w.Lit(from)] = w.Lit(to)
						desc = append(desc, fmt.Sprintf("%v -> %v", from, to))
					}
				}
			}
			c.Logf("substitute literals %v in %s", desc, what)
			x := transformation.SubstituteLiterals(fac, cur, &sub)
			want := NewTT(nv)
			mapped := mapLits(in, func(l PLit) PLit {
				if q, ok := img[l]; ok {
					return q
				}
				if q, ok := img[PLit{l.V, true}]; ok && !l.Pos {
					return PLit{q.V, !q.Pos}
				}
				return l
			})
			want = mapped.TT(nv)
			c.Check(w.TTOf(x).Eq(want), "substituting literals %v in %s gives %s", desc, what, cut(x.Sprint(fac), 300))
			c.Check(len(sub) == len(img), "literal substitution changes the given mapping")
			c.Obs("literal substitutions", 1)
			cur = x
		case 2, 3: // quantifier elimination
			var vs []f.Variable
			want := t
			ex := r.Bool()
			gone := map[int]bool{}
			for _, v := range shuffled(r, seqInts(0, nv-1))[:r.Range(0, min(3, nv))] {
				vs = append(vs, w.vars[v])
				gone[v] = true
				if ex {
					want = want.Cof(v, true).Or(want.Cof(v, false))
				} else {
					want = want.Cof(v, true).And(want.Cof(v, false))
				}
			}
			if len(vs) > 0 && r.P(15) {
				vs = append(vs, vs[0])
			}
			op, fn := "existential", transformation.ExistentialQE
			if !ex {
				op, fn = "universal", transformation.UniversalQE
			}
			c.Logf("%s elimination of %v in %s", op, vs, what)
			x := fn(fac, cur, vs...)
			out := w.From(x)
			c.Check(out.TT(nv).Eq(want), "%s elimination of %v in %s gives %s", op, vs, what, cut(x.Sprint(fac), 300))
			for _, v := range out.Vars() {
				c.Check(!gone[v] && isIn[v], "%s elimination of %v in %s leaves variable %d: %s", op, vs, what, v, cut(x.Sprint(fac), 300))
			}
			c.Obs(op+" eliminations", 1)
			if in.HasPB() && len(vs) > 0 {
				c.Obs("eliminations from constraints", 1)
			}
			cur = x
		case 4: // anonymisation: several formulas by one anonymizer
			if an == nil || r.P(20) {
				anMap = map[int]string{}
				switch r.Intn(3) {
				case 0:
					an, anPrefix = transformation.NewAnonymizer(fac), "v"
				case 1:
					an, anPrefix = transformation.NewAnonymizer(fac, "x"), "x"
				default:
					an, anPrefix = transformation.NewAnonymizer(fac, "new_name"), "new_name"
				}
			}
			c.Logf("anonymize %s with %s", what, anPrefix)
			x := an.Anonymize(cur)
			fresh := r.P(20)
			if fresh {
				x = transformation.Anonymize(fac, cur)
			}
			// the mapping read from the result must be a renaming
			mp := anMap
			pre := anPrefix
			if fresh {
				mp, pre = map[int]string{}, "v"
				for i, v := range f.Variables(fac, cur).Content() {
					n, _ := fac.VarName(v)
					mp[w.Idx(n)] = fmt.Sprintf("v%d", i)
				}
			} else {
				for _, v := range f.Variables(fac, cur).Content() {
					n, _ := fac.VarName(v)
					if _, ok := mp[w.Idx(n)]; !ok {
						y := an.Anonymize(v.AsFormula())
						name, pos, ok := fac.LitNamePhase(f.Literal(y))
						c.Check(ok && pos, "anonymized variable %s is %s", n, y.Sprint(fac))
						mp[w.Idx(n)] = name
					}
				}
			}
			used := map[string]int{}
			for v, n := range mp {
				c.Check(strings.HasPrefix(n, pre), "anonymized variable %s lacks the prefix %s", n, pre)
				_, dup := used[n]
				c.Check(!dup, "two variables are anonymized to %s", n)
				used[n] = v
			}
			// rename by hand and compare
			names := map[int]int{}
			for v, n := range mp {
				names[v] = w.Idx(n)
			}
			want := mapLits(in, func(l PLit) PLit {
				q, ok := names[l.V]
				c.Check(ok, "variable %d has no anonymous name", l.V)
				return PLit{q, l.Pos}
			})
			out := w.From(x)
			c.Check(sameNode(out, want), "anonymization of %s gives %s", what, cut(x.Sprint(fac), 300))
			y := an.Anonymize(cur)
			if !fresh {
				c.Check(y == x, "anonymizing %s again gives %s", what, cut(y.Sprint(fac), 300))
			}
			c.Obs("anonymizations", 1)
			if len(mp) > len(inVars) {
				c.Obs("anonymizations with further variables known", 1)
			}
		default: // pure expansion
			if r.P(70) {
				n := p27gen(r, nv)
				n = mapCC(n, func(k *Node) *Node {
					q := *k
					q.K = KCC
					q.Coefs = nil
					var ls []PLit
					for _, v := range shuffled(r, seqInts(0, nv-1))[:r.Range(1, nv)] {
						ls = append(ls, PLit{v, true})
					}
					q.Lits = ls
					switch r.Intn(4) {
					case 0:
						q.Cmp, q.Rhs = LE, 1
					case 1:
						q.Cmp, q.Rhs = LT, 2
					case 2:
						q.Cmp, q.Rhs = EQ, 1
					default:
						if r.P(15) {
							q.Cmp, q.Rhs = GE, 2
						} else {
							q.Cmp, q.Rhs = EQ, 1
						}
					}
					return &q
				})
				cur = w.Build(n)
				in = w.From(cur)
				t = in.TT(nv)
				what = cut(cur.Sprint(fac), 300)
			}
			ok := true
			cs := constraintsOf(in)
			for _, k := range cs {
				ok = ok && k.K == KCC && (k.Rhs == 1 && (k.Cmp == LE || k.Cmp == EQ) || k.Rhs == 2 && k.Cmp == LT)
			}
			c.Logf("expand %s", what)
			x, err := transformation.ExpandAMOAndEXO(fac, cur)
			c.Check((err == nil) == ok, "expanding %s: error %v", what, err)
			if err != nil {
				c.Obs("expansions refused", 1)
				continue
			}
			out := w.From(x)
			c.Check(!out.HasPB(), "expanding %s leaves a constraint: %s", what, cut(x.Sprint(fac), 300))
			c.Check(w.OnlyBase(out) && out.TT(nv).Eq(t), "expanding %s gives %s", what, cut(x.Sprint(fac), 300))
			if len(cs) > 0 {
				c.Obs("constraints expanded", len(cs))
			}
			cur = x
		}
	}
}

func init() {
	register(&PropDef{ID: "P27", Quick: 60000, Thorough: 3000000, Run: runP27,
		Rule: "chains of transformations on generated formulas with constraints over up to 6 variables: simultaneous and overlapping substitutions, cyclic literal substitutions, eliminations in any order, repeated anonymisation by one anonymizer with clashing prefixes, expansions",
		Need: []string{"formula substitutions", "formula substitutions into constraints", "substitutions refused", "literal substitutions", "existential eliminations", "universal eliminations", "eliminations from constraints", "anonymizations", "anonymizations with further variables known", "constraints expanded", "expansions refused"}})
}

// mapLits replaces every literal occurrence.
func mapLits(n *Node, fn func(PLit) PLit) *Node {
	m := *n
	if n.K == KLit {
		m.L = fn(n.L)
	}
	if n.Lits != nil {
		m.Lits = nil
		for _, l := range n.Lits {
			m.Lits = append(m.Lits, fn(l))
		}
	}
	m.Ops = nil
	for _, o := range n.Ops {
		m.Ops = append(m.Ops, mapLits(o, fn))
	}
	return &m
}

// mapCC replaces the constraints.
func mapCC(n *Node, fn func(*Node) *Node) *Node {
	if n.K == KCC || n.K == KPBC {
		return fn(n)
	}
	m := *n
	m.Ops = nil
	for _, o := range n.Ops {
		m.Ops = append(m.Ops, mapCC(o, fn))
	}
	return &m
}

// canonNode prints a formula up to the order of commutative operands.
func canonNode(n *Node) string {
	switch n.K {
	case KLit:
		return fmt.Sprintf("%v:%v", n.L.V, n.L.Pos)
	case KCC, KPBC:
		var ts []string
		for i, l := range n.Lits {
			k := 1
			if n.Coefs != nil {
				k = n.Coefs[i]
			}
			ts = append(ts, fmt.Sprintf("%d*%v:%v", k, l.V, l.Pos))
		}
		sort.Strings(ts)
		return fmt.Sprint(ts, n.Cmp, n.Rhs)
	}
	var ts []string
	for _, o := range n.Ops {
		ts = append(ts, canonNode(o))
	}
	if n.K != KImpl {
		sort.Strings(ts)
	}
	if n.K == KAnd || n.K == KOr { // clauses encoding repeated literals repeat them
		ts = slices.Compact(ts)
		if len(ts) == 1 {
			return ts[0]
		}
	}
	return fmt.Sprintf("(%d %s)", n.K, strings.Join(ts, " "))
}

func sameNode(a, b *Node) bool { return canonNode(a) == canonNode(b) }
