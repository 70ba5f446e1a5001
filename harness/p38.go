package main

import (
	"cmp"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
)

// Values: sets, assignments, models, propositions and identifiers are judged
// step by step against plain Go values along histories of calls.

type setOf38[T any, S any] interface {
	Empty() bool
	Size() int
	Contains(T) bool
	ContainsAll(S) bool
	Content() []T
}

type mutableSet38[T any, S any] interface {
	setOf38[T, S]
	Add(T)
	AddAll(S)
	AddAllElements(*[]T)
	Remove(T)
	RemoveAll(S)
	RemoveAllElements(*[]T)
	AsImmutable() S
}

type tracked38[T cmp.Ordered, S setOf38[T, S], M mutableSet38[T, S]] struct {
	name string
	set  S
	mut  M
	isM  bool
	want map[T]bool
}

func (t *tracked38[T, S, M]) api() setOf38[T, S] {
	if t.isM {
		return t.mut
	}
	return t.set
}

func (t *tracked38[T, S, M]) imm() S {
	if t.isM {
		return t.mut.AsImmutable()
	}
	return t.set
}

func sorted38[T cmp.Ordered](m map[T]bool) []T {
	out := []T{}
	for k, in := range m {
		if in {
			out = append(out, k)
		}
	}
	slices.Sort(out)
	return out
}

func clone38[T comparable](m map[T]bool) map[T]bool {
	out := map[T]bool{}
	for k, in := range m {
		if in {
			out[k] = true
		}
	}
	return out
}

// sets38 runs a history over a pool of sets.
func sets38[T cmp.Ordered, S setOf38[T, S], M mutableSet38[T, S]](c *Ctx, kind string, universe []T, newS func(...T) S, newM func(...T) M, copyS func(...S) S, copyM func(...S) M) {
	r := c.R
	var pool []*tracked38[T, S, M]
	type held struct {
		content []T
		want    []T
		what    string
	}
	var heldC []held
	judge := func(t *tracked38[T, S, M], what string) {
		want := sorted38(t.want)
		a := t.api()
		c.Check(a.Size() == len(want) && a.Empty() == (len(want) == 0), "%s %s after %s: size %d, empty %v, expected %v", kind, t.name, what, a.Size(), a.Empty(), want)
		for _, e := range universe {
			c.Check(a.Contains(e) == t.want[e], "%s %s after %s: contains %v is %v", kind, t.name, what, e, a.Contains(e))
		}
	}
	content := func(t *tracked38[T, S, M], what string) {
		got, want := t.api().Content(), sorted38(t.want)
		c.Check(slices.Equal(got, want), "%s %s after %s: content %v, expected %v", kind, t.name, what, got, want)
		heldC = append(heldC, held{got, want, t.name + " after " + what})
	}
	sub := func() []T {
		var out []T
		for _, e := range universe {
			if r.P(35) {
				out = append(out, e)
			}
		}
		for i, j := range r.Perm(len(out)) {
			out[i], out[j] = out[j], out[i]
		}
		if len(out) > 0 && r.P(30) {
			out = append(out, out[r.Intn(len(out))])
		}
		return out
	}
	asMap := func(es []T) map[T]bool {
		m := map[T]bool{}
		for _, e := range es {
			m[e] = true
		}
		return m
	}
	steps := r.Range(8, 30)
	for i := 0; i < steps; i++ {
		what := ""
		var t, u *tracked38[T, S, M]
		if len(pool) > 0 {
			t, u = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		}
		op := r.Intn(14)
		if t == nil {
			op = r.Intn(2)
		} else if op >= 4 && op < 10 && !t.isM {
			op = pick(r, 10, 11, 12, 13)
		}
		name := fmt.Sprint("s", len(pool))
		switch op {
		case 0:
			es := sub()
			t = &tracked38[T, S, M]{name: name, set: newS(es...), want: asMap(es)}
			pool = append(pool, t)
			what = fmt.Sprintf("%s = set of %v", name, es)
			for j := range es { // the list belongs to the caller
				es[j] = universe[r.Intn(len(universe))]
			}
		case 1:
			es := sub()
			t = &tracked38[T, S, M]{name: name, mut: newM(es...), isM: true, want: asMap(es)}
			pool = append(pool, t)
			what = fmt.Sprintf("%s = mutable set of %v", name, es)
			for j := range es {
				es[j] = universe[r.Intn(len(universe))]
			}
		case 2, 3:
			if copyS == nil {
				continue
			}
			var from []S
			w := map[T]bool{}
			for k := 0; k < r.Range(0, 3); k++ {
				x := pool[r.Intn(len(pool))]
				from = append(from, x.imm())
				for e := range clone38(x.want) {
					w[e] = true
				}
			}
			t = &tracked38[T, S, M]{name: name, want: w}
			if op == 2 {
				t.set = copyS(from...)
			} else {
				t.mut, t.isM = copyM(from...), true
			}
			pool = append(pool, t)
			what = name + " = copy"
			c.Obs("copies of sets", 1)
		case 4:
			e := universe[r.Intn(len(universe))]
			t.mut.Add(e)
			t.want[e] = true
			what = fmt.Sprintf("adding %v to %s", e, t.name)
		case 5:
			e := universe[r.Intn(len(universe))]
			t.mut.Remove(e)
			delete(t.want, e)
			what = fmt.Sprintf("removing %v from %s", e, t.name)
		case 6:
			w := clone38(u.want)
			t.mut.AddAll(u.imm())
			for e := range w {
				t.want[e] = true
			}
			what = fmt.Sprintf("adding %s to %s", u.name, t.name)
		case 7:
			w := clone38(u.want)
			t.mut.RemoveAll(u.imm())
			for e := range w {
				delete(t.want, e)
			}
			what = fmt.Sprintf("removing %s from %s", u.name, t.name)
			if u == t {
				c.Obs("sets removed from themselves", 1)
			}
		case 8:
			es := sub()
			keep := slices.Clone(es)
			t.mut.AddAllElements(&es)
			c.Check(slices.Equal(es, keep), "%s: the list of elements to add was changed", kind)
			for _, e := range es {
				t.want[e] = true
			}
			what = fmt.Sprintf("adding elements %v to %s", es, t.name)
		case 9:
			es := sub()
			keep := slices.Clone(es)
			t.mut.RemoveAllElements(&es)
			c.Check(slices.Equal(es, keep), "%s: the list of elements to remove was changed", kind)
			for _, e := range es {
				delete(t.want, e)
			}
			what = fmt.Sprintf("removing elements %v from %s", es, t.name)
		case 10, 11:
			content(t, "content")
			what = "content of " + t.name
		default:
			want := true
			for e := range clone38(u.want) {
				want = want && t.want[e]
			}
			got := t.api().ContainsAll(u.imm())
			c.Check(got == want, "%s: %s contains all of %s is %v, contents %v and %v", kind, t.name, u.name, got, sorted38(t.want), sorted38(u.want))
			what = "containment"
			c.Obs(fmt.Sprint("containment ", want), 1)
		}
		c.Logf("%s", what)
		for _, x := range pool {
			judge(x, what)
		}
		if r.P(40) {
			content(pool[r.Intn(len(pool))], what)
		}
		for _, h := range heldC {
			c.Check(slices.Equal(h.content, h.want), "%s: the content of %s taken earlier changed to %v from %v by %s", kind, h.what, h.content, h.want, what)
		}
		c.Obs("steps on sets", 1)
	}
	for _, x := range pool {
		content(x, "the end")
	}
	c.NT(fmt.Sprint(kind, c.Idx))
}

func runSets38(c *Ctx) {
	r := c.R
	nv := r.Range(1, 8)
	w := NewWorld(r, nv, r.P(20))
	switch r.Intn(3) {
	case 0:
		vs := w.Vars()
		sets38(c, "variable set", vs, f.NewVarSet, f.NewMutableVarSet, f.NewVarSetCopy, f.NewMutableVarSetCopy)
	case 1:
		var ls []f.Literal
		for v := 0; v < nv; v++ {
			ls = append(ls, w.Lit(PLit{v, true}), w.Lit(PLit{v, false}))
		}
		sets38[f.Literal, *f.LitSet, *f.MutableLitSet](c, "literal set", ls, f.NewLitSet, f.NewMutableLitSet, nil, nil)
	default:
		g := stdCfg(r, nv)
		seen := map[f.Formula]bool{}
		var fs []f.Formula
		for i := 0; i < 10; i++ {
			x := w.Build(Gen(r, g))
			if !seen[x] {
				seen[x] = true
				fs = append(fs, x)
			}
		}
		sets38[f.Formula, *f.FormulaSet, *f.MutableFormulaSet](c, "formula set", fs, f.NewFormulaSet, f.NewMutableFormulaSet, nil, nil)
	}
	// sets of variables and literals of formulas are no views of copies
	g := stdCfg(r, nv)
	x, y := w.Build(Gen(r, g)), w.Build(Gen(r, g))
	vx, vy := f.Variables(w.F, x), f.Variables(w.F, y)
	cx, cy := slices.Clone(vx.Content()), slices.Clone(vy.Content())
	both := f.Variables(w.F, x, y)
	m := f.NewMutableVarSetCopy(vx)
	m.AddAll(vy)
	c.Check(slices.Equal(m.Content(), both.Content()), "variables of two formulas %v, union of both %v", both.Content(), m.Content())
	m.RemoveAll(vx)
	for _, v := range cx {
		c.Check(!m.Contains(v), "removed variables are still in the set")
	}
	m.Add(w.F.Var("other"))
	c.Check(slices.Equal(vx.Content(), cx) && slices.Equal(vy.Content(), cy) && slices.Equal(f.Variables(w.F, x).Content(), cx), "changing a copy changed the variables of a formula")
	c.Check(!f.Variables(w.F, y).Contains(w.F.Var("other")), "adding to a copy changed the variables of a formula")
	lits := f.Literals(w.F, x, y)
	vars := f.NewMutableVarSet()
	for _, l := range lits.Content() {
		vars.Add(l.Variable())
	}
	c.Check(slices.Equal(vars.Content(), both.Content()), "variables of the literals %v, variables %v", vars.Content(), both.Content())
}

// runAsg38 runs a history on assignments and models.
func runAsg38(c *Ctx) {
	r := c.R
	nv := r.Range(1, 7)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	g := stdCfg(r, nv)
	g.CC, g.PB = 1, 1
	var nodes []*Node
	var forms []f.Formula
	for i := 0; i < 3; i++ {
		n := Gen(r, g)
		nodes = append(nodes, n)
		forms = append(forms, w.Build(n))
	}
	type asg struct {
		a         *assignment.Assignment
		mask, val uint
	}
	type mod struct {
		m    *model.Model
		lits []f.Literal
	}
	var as []*asg
	var ms []*mod
	lit := func() (f.Literal, int, bool) {
		v, ph := r.Intn(nv), r.Bool()
		return w.Lit(PLit{v, ph}), v, ph
	}
	names := func(vs []f.Variable) string {
		var o []string
		for _, v := range vs {
			n, _ := fac.VarName(v)
			o = append(o, n)
		}
		sort.Strings(o)
		return fmt.Sprint(o)
	}
	judge := func(what string) {
		for i, x := range as {
			var pos []f.Variable
			n := 0
			for v := 0; v < nv; v++ {
				if x.mask>>uint(v)&1 == 1 {
					n++
					if x.val>>uint(v)&1 == 1 {
						pos = append(pos, w.Vars()[v])
					}
				}
			}
			c.Check(x.a.Size() == n && names(x.a.PosVars()) == names(pos) && len(x.a.NegVars()) == n-len(pos), "assignment %d after %s: %s, expected positive variables %s of %d", i, what, x.a.Sprint(fac), names(pos), n)
		}
		for i, x := range ms {
			c.Check(slices.Equal(x.m.Literals, x.lits) && x.m.Size() == len(x.lits), "model %d after %s: %s", i, what, x.m.Sprint(fac))
		}
	}
	for i := 0; i < r.Range(6, 25); i++ {
		what := ""
		op := r.Intn(9)
		if len(as) == 0 {
			op = 0
		}
		switch op {
		case 0:
			if r.Bool() {
				as = append(as, &asg{a: assignment.Empty()})
				what = "new empty assignment"
				break
			}
			var ls []f.Literal
			x := &asg{}
			for v := 0; v < nv; v++ {
				if r.Bool() {
					ph := r.Bool()
					ls = append(ls, w.Lit(PLit{v, ph}))
					x.mask |= 1 << uint(v)
					if ph {
						x.val |= 1 << uint(v)
					}
				}
			}
			a, err := assignment.New(fac, ls...)
			c.Check(err == nil, "assignment refused: %v", err)
			x.a = a
			as = append(as, x)
			what = "new assignment"
		case 1, 2, 3:
			x := as[r.Intn(len(as))]
			l, v, ph := lit()
			err := x.a.AddLit(fac, l)
			bit := uint(1) << uint(v)
			clash := x.mask&bit != 0 && (x.val&bit != 0) != ph
			c.Check((err != nil) == clash, "adding %s: error %v, complementary %v", l.Sprint(fac), err, clash)
			if !clash {
				x.mask |= bit
				if ph {
					x.val |= bit
				}
			} else {
				c.Obs("complementary literals refused", 1)
			}
			what = "adding " + l.Sprint(fac)
		case 4:
			x := as[r.Intn(len(as))]
			m := model.FromAssignment(fac, *x.a)
			mk, vl, e := w.LitsAsg(m.Literals)
			c.Check(e == "" && uint(mk) == x.mask && uint(vl) == x.val, "model of assignment %s is %s", x.a.Sprint(fac), m.Sprint(fac))
			ms = append(ms, &mod{m, slices.Clone(m.Literals)})
			what = "model from assignment"
		case 5:
			if len(ms) == 0 {
				continue
			}
			m := ms[r.Intn(len(ms))]
			var ls []f.Literal
			for k := 0; k < r.Range(1, 3); k++ {
				l, _, _ := lit()
				ls = append(ls, l)
			}
			m.m.AddLiteral(ls...)
			m.lits = append(m.lits, ls...)
			for k := range ls {
				ls[k] = ls[k].Negate(fac)
			}
			what = "adding literals to a model"
		case 6:
			if len(ms) == 0 {
				continue
			}
			m := ms[r.Intn(len(ms))]
			mk, vl, clash := uint(0), uint(0), false
			var pos []f.Variable
			var neg []f.Literal
			ft := TTConst(nv, true)
			dup := false
			for _, l := range m.lits {
				v := slices.Index(w.Vars(), l.Variable())
				bit := uint(1) << uint(v)
				if mk&bit != 0 {
					dup = true
					clash = clash || (vl&bit != 0) != l.IsPos()
				}
				mk |= bit
				if l.IsPos() {
					vl |= bit
					pos = append(pos, l.Variable())
					ft = ft.And(TTVar(nv, v))
				} else {
					neg = append(neg, l)
					ft = ft.And(TTVar(nv, v).Not())
				}
			}
			c.Check(slices.Equal(m.m.PosVars(), pos) && slices.Equal(m.m.NegLits(), neg), "model %s: positive variables %v, negative literals %v", m.m.Sprint(fac), m.m.PosVars(), m.m.NegLits())
			nvs := m.m.NegVars()
			c.Check(len(nvs) == len(neg), "model %s: %d negative variables", m.m.Sprint(fac), len(nvs))
			for k := range nvs {
				c.Check(nvs[k] == neg[k].Variable(), "model %s: negative variable %d", m.m.Sprint(fac), k)
			}
			a, err := m.m.Assignment(fac)
			c.Check((err != nil) == clash, "model %s as assignment: error %v", m.m.Sprint(fac), err)
			if err == nil {
				as = append(as, &asg{a, mk, vl})
				c.Obs("assignments of models", 1)
			}
			if !dup {
				c.EqTT(w.TTOf(m.m.Formula(fac)), ft, "formula of model %s", m.m.Sprint(fac))
			}
			what = "reading a model"
		default:
			x := as[r.Intn(len(as))]
			k := r.Intn(len(forms))
			t := nodes[k].TT(nv)
			// unassigned variables are false
			got := assignment.Evaluate(fac, forms[k], x.a)
			want := t.Get(uint64(x.val))
			c.Check(got == want, "%s under %s evaluates to %v", forms[k].Sprint(fac), x.a.Sprint(fac), got)
			cof := t
			for v := 0; v < nv; v++ {
				if x.mask>>uint(v)&1 == 1 {
					cof = cof.Cof(v, x.val>>uint(v)&1 == 1)
				}
			}
			c.EqTT(w.TTOf(assignment.Restrict(fac, forms[k], x.a)), cof, "%s restricted by %s", forms[k].Sprint(fac), x.a.Sprint(fac))
			what = "evaluation"
			c.Obs("formulas judged along assignments", 1)
		}
		c.Logf("%s", what)
		judge(what)
		c.Obs("steps on assignments and models", 1)
	}
	c.NT(fmt.Sprint("asg", c.Idx))
}

type pack38 struct{ s string }

func (p pack38) String() string { return p.s }

// runIds38 judges identifiers, propositions and comparisons.
func runIds38(c *Ctx) {
	r := c.R
	nv := r.Range(2, 7)
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	g := stdCfg(r, nv)
	g.CC, g.PB = 1, 1
	var forms []f.Formula
	for i := 0; i < 6; i++ {
		forms = append(forms, w.Build(Gen(r, g)))
	}
	forms = append(forms, fac.Verum(), fac.Falsum(), w.Lit(PLit{0, true}).AsFormula(), w.Lit(PLit{1, false}).AsFormula())
	for _, x := range forms {
		c.Check(f.EncodeFormula(x.Sort(), x.ID()) == x, "sort and ID of %s do not give it back", x.Sprint(fac))
		nx := x.Negate(fac)
		c.Check(nx == fac.Not(x) && nx.Negate(fac) == x && nx != x && nx.IsPos() == x.IsNeg() && x.IsPos() != x.IsNeg(), "negation of %s is %s", x.Sprint(fac), nx.Sprint(fac))
		c.EqTT(w.TTOf(nx), w.TTOf(x).Not(), "negation of %s", x.Sprint(fac))
		s := x.Sort()
		c.Check(x.IsConstant() == (x == fac.Verum() || x == fac.Falsum()) && x.IsAtomic() == (x.IsConstant() || s == f.SortLiteral || s == f.SortCC || s == f.SortPBC), "%s: constant %v, atomic %v", x.Sprint(fac), x.IsConstant(), x.IsAtomic())
		l, lerr := x.AsLiteral()
		v, verr := x.AsVariable()
		c.Check((lerr == nil) == (s == f.SortLiteral) && (verr == nil) == (s == f.SortLiteral && x.IsPos()), "%s: as literal %v, as variable %v", x.Sprint(fac), lerr, verr)
		if lerr == nil {
			name, phase, ok := fac.LitNamePhase(l)
			c.Check(ok && phase == x.IsPos() && fac.Lit(name, phase) == l && l.AsFormula() == x && fac.Literal(name, phase) == x && l.ID() == x.ID() && f.EncodeLiteral(l.ID()) == l, "literal %s: name %s, phase %v", x.Sprint(fac), name, phase)
			c.Check(l.Variable() == fac.Var(name) && l.IsPos() == phase && l.IsNeg() != phase && l.Negate(fac) == fac.Lit(name, !phase) && l.Negate(fac).Negate(fac) == l, "literal %s: variable and negation", x.Sprint(fac))
		}
		if verr == nil {
			name, ok := fac.VarName(v)
			c.Check(ok && fac.Var(name) == v && v.AsFormula() == x && v.AsLiteral() == l && v.ID() == x.ID() && f.EncodeVariable(v.ID()) == v && v.Negate(fac) == fac.Lit(name, false) && v.AsFormula() == fac.Variable(name), "variable %s", x.Sprint(fac))
		}
		c.Obs("identifiers judged", 1)
	}
	// lists
	var ls []f.Literal
	allPos := true
	for i := 0; i < r.Intn(5); i++ {
		pl := PLit{r.Intn(nv), r.P(80)}
		allPos = allPos && pl.Pos
		ls = append(ls, w.Lit(pl))
	}
	vs, err := f.LiteralsAsVariables(ls)
	c.Check((err == nil) == allPos, "literals as variables: error %v, all positive %v", err, allPos)
	if err == nil {
		c.Check(len(vs) == len(ls), "literals as variables: %d of %d", len(vs), len(ls))
		back := f.VariablesAsLiterals(vs)
		c.Check(slices.Equal(back, ls), "literals as variables and back: %v, expected %v", back, ls)
	}
	fl := f.LiteralsAsFormulas(ls)
	fv := f.VariablesAsFormulas(w.Vars())
	c.Check(len(fl) == len(ls) && len(fv) == nv, "lists as formulas have %d and %d elements", len(fl), len(fv))
	for i := range fl {
		c.Check(fl[i] == ls[i].AsFormula(), "literal %d as formula", i)
	}
	for i := range fv {
		c.Check(fv[i] == w.Vars()[i].AsFormula(), "variable %d as formula", i)
	}
	// propositions
	var ps []f.Proposition
	for i := 0; i < r.Range(2, 7); i++ {
		x := forms[r.Intn(len(forms))]
		d := pick(r, "", "p", "q", "pq", "p: {sort")
		var p f.Proposition
		switch r.Intn(3) {
		case 0:
			p = f.NewStandardProposition(x, d)
		case 1:
			d = ""
			p = f.NewStandardProposition(x)
		default:
			p = f.NewExtendedProposition(x, pack38{d})
		}
		c.Check(p.Formula() == x && p.String() == d+": "+x.String() && p.Sprint(fac) == d+": "+x.Sprint(fac), "proposition %q with %s: %s, %s", d, x.Sprint(fac), p.String(), p.Sprint(fac))
		ps = append(ps, p)
	}
	sgn := func(n int) int { return cmp.Compare(n, 0) }
	less := func(a, b f.Proposition) int {
		if s := strings.Compare(a.String(), b.String()); s != 0 {
			return s
		}
		return cmp.Compare(a.Formula(), b.Formula())
	}
	for _, a := range ps {
		for _, b := range ps {
			c.Check(sgn(f.PropComparator(a, b)) == less(a, b), "comparison of propositions %s and %s is %d", a, b, f.PropComparator(a, b))
		}
	}
	for v := 0; v < nv; v++ {
		a, b := w.Lit(PLit{v, r.Bool()}), w.Lit(PLit{r.Intn(nv), r.Bool()})
		c.Check(sgn(f.Comparator(a, b)) == cmp.Compare(a, b), "comparison of literals %v and %v is %d", a, b, f.Comparator(a, b))
	}
	c.Obs("propositions judged", len(ps))
	// three values and comparators
	for _, t := range []f.Tristate{f.TristateTrue, f.TristateFalse, f.TristateUndef} {
		want := map[f.Tristate]f.Tristate{f.TristateTrue: f.TristateFalse, f.TristateFalse: f.TristateTrue, f.TristateUndef: f.TristateUndef}[t]
		c.Check(t.Negate() == want, "negation of %s is %s", t, t.Negate())
	}
	c.Check(f.TristateFromBool(true) == f.TristateTrue && f.TristateFromBool(false) == f.TristateFalse, "three-valued Booleans")
	for i := 0; i < 4; i++ {
		a, b := r.Range(-3, 3), r.Range(-3, 3)
		if r.P(20) {
			a, b = int(r.U64()), int(r.U64())
		}
		for s, want := range map[f.CSort]bool{f.EQ: a == b, f.LE: a <= b, f.LT: a < b, f.GE: a >= b, f.GT: a > b} {
			c.Check(s.Evaluate(a, b) == want, "%d %s %d is %v", a, s, b, s.Evaluate(a, b))
		}
	}
	for s := f.SortFalse; s <= f.SortPBC; s++ {
		d, err := f.DualSort(s)
		c.Check((err == nil) == (s == f.SortAnd || s == f.SortOr) && (err != nil || d != s && (d == f.SortAnd || d == f.SortOr)), "dual sort of %s is %s, %v", s, d, err)
	}
	c.NT(fmt.Sprint("ids", c.Idx))
}

// runAux38 judges auxiliary variables: always new, never those of the user.
func runAux38(c *Ctx) {
	r := c.R
	w := NewWorld(r, r.Range(2, 5), r.P(20))
	fac := w.F
	seen := map[f.Variable]string{}
	for v, x := range w.Vars() {
		seen[x] = vname(v)
	}
	other := f.NewFactory()
	g := stdCfg(r, w.N)
	g.CC, g.PB = 1, 1
	for i := 0; i < r.Range(5, 30); i++ {
		switch r.Intn(4) {
		case 0:
			other.NewAuxVar(f.AuxCNF)
		case 1:
			w.Build(Gen(r, g))
		default:
			s := pick[f.AuxVarSort](r, f.AuxCNF, f.AuxCC, f.AuxPBC)
			a := fac.NewAuxVar(s)
			name, ok := fac.VarName(a)
			c.Check(ok && seen[a] == "", "auxiliary variable %s is not new, it is %s", name, seen[a])
			c.Check(fac.Var(name) == a && a.AsFormula().Sort() == f.SortLiteral && a.AsFormula().IsPos(), "auxiliary variable %s is not the variable of that name", name)
			for x, n := range seen {
				nm, _ := fac.VarName(x)
				c.Check(nm != name, "auxiliary variable %s has the name of %s", name, n)
			}
			seen[a] = name
			c.Obs("auxiliary variables judged", 1)
		}
	}
	c.NT(fmt.Sprint("aux", c.Idx))
}

func runP38(c *Ctx) {
	if c.Idx%401 == 11 {
		wide38(c)
		return
	}
	switch x := c.R.Intn(100); {
	case x < 50:
		runSets38(c)
	case x < 80:
		runAsg38(c)
	case x < 95:
		runIds38(c)
	default:
		runAux38(c)
	}
}

func init() {
	register(&PropDef{ID: "P38", Quick: 150000, Thorough: 3000000, Run: runP38,
		Rule: "one case = one history over a pool of mutable and immutable sets, of assignments and models, one set of formulas with all conversions of identifiers, propositions and comparisons, or one sequence of auxiliary variables; non-trivial = distinct histories",
		Need: []string{"steps on sets", "copies of sets", "containment true", "containment false", "sets removed from themselves", "steps on assignments and models",
			"complementary literals refused", "assignments of models", "formulas judged along assignments", "identifiers judged", "propositions judged", "auxiliary variables judged"}})
}
