package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// ownership monitors who may change what: arguments are watched until a call
// returns, results from their creation to the end of the history.
type ownership struct {
	c    *Ctx
	r    *Rng
	w    *World
	pool []f.Formula // formulas over the world's variables
	node []*Node
	args []watched
	held []watched
}

type watched struct {
	what    string
	changed func() string // a difference to the first state
	spoil   func()        // what an owner may do with it
}

// arg hands a slice to a call: the backing array is longer than the slice, so
// that the call notices neither its end nor what lies behind.
func arg[T any](o *ownership, what string, xs []T) []T {
	if len(xs) == 0 && o.r.Bool() {
		return nil
	}
	extra := o.r.Range(0, 3)
	if len(xs) == 0 {
		extra = 0
	}
	big := make([]T, len(xs)+extra)
	copy(big, xs)
	for i := range extra {
		big[len(xs)+i] = xs[o.r.Intn(len(xs))]
	}
	was := append([]T{}, big...)
	o.args = append(o.args, watched{what, func() string {
		for i := range big {
			if !reflect.DeepEqual(big[i], was[i]) {
				return fmt.Sprintf("element %d of %d was %v and is %v", i, len(xs), was[i], big[i])
			}
		}
		return ""
	}, func() {
		for i := range big {
			big[i] = was[o.r.Intn(len(was))]
		}
	}})
	return big[:len(xs)]
}

// argAny watches any other argument by its rendering.
func argAny(o *ownership, what string, render func() string, spoil func()) {
	was := render()
	o.args = append(o.args, watched{what, func() string {
		if now := render(); now != was {
			return "was " + cut(was, 300) + " and is " + cut(now, 300)
		}
		return ""
	}, spoil})
}

func argCfg[T any](o *ownership, cfg *T) *T {
	argAny(o, "configuration", func() string { return fmt.Sprintf("%+v", *cfg) }, nil)
	return cfg
}

// called ends a call: the arguments are judged and perhaps used otherwise.
func (o *ownership) called(what string) {
	for _, a := range o.args {
		d := a.changed()
		o.c.Check(d == "", "%s changes its argument (%s): %s", what, a.what, d)
		o.c.Obs("arguments watched", 1)
	}
	if o.r.Bool() {
		for _, a := range o.args {
			if a.spoil != nil {
				a.spoil()
				o.c.Obs("arguments changed by their owner", 1)
			}
		}
	}
	o.args = o.args[:0]
}

// hold watches a result to the end of the history.
func (o *ownership) hold(what string, render func() string) {
	was := render()
	o.held = append(o.held, watched{what, func() string {
		if now := render(); now != was {
			return "was " + cut(was, 300) + " and is " + cut(now, 300)
		}
		return ""
	}, nil})
	o.c.Obs("results watched", 1)
}

func (o *ownership) judgeHeld(after string) {
	for _, h := range o.held {
		d := h.changed()
		o.c.Check(d == "", "result of %s has changed after %s: %s", h.what, after, d)
	}
}

// repeat judges a call which depends on the factory's formulas only: its
// result belongs to the caller, who may change it without any effect on the
// same call later.
func repeat[T any](o *ownership, what string, call func() T, render func(T) string, spoil func(T)) {
	o.c.Logf("%s", what)
	x := call()
	o.called(what)
	first := render(x)
	o.c.Obs("calls", 1)
	if o.r.P(40) && spoil != nil {
		spoil(x)
		o.c.Obs("results changed by their owner", 1)
	} else {
		o.hold(what, func() string { return render(x) })
	}
	if o.r.P(60) {
		y := call()
		o.called(what)
		second := render(y)
		o.c.Check(first == second, "%s: first %s, then %s", what, cut(first, 300), cut(second, 300))
		o.c.Obs("calls repeated", 1)
		o.hold(what, func() string { return render(y) })
	}
}

func spoilSlice[T any](o *ownership) func([]T) {
	return func(xs []T) {
		was := append([]T{}, xs...)
		if len(was) == 0 {
			return
		}
		xs = xs[:cap(xs)]
		for i := range xs {
			xs[i] = was[o.r.Intn(len(was))]
		}
	}
}

func renderSlice[T any](xs []T) string { return fmt.Sprint(xs) }

func renderMap[K comparable, V any](m map[K]V) string { return fmt.Sprint(m) } // sorted by fmt

func (o *ownership) renderFormula(g f.Formula) string {
	return fmt.Sprintf("%d: %s", g, g.Sprint(o.w.F))
}

func spoilBig(x *big.Int) {
	if x != nil {
		x.Add(x, big.NewInt(77))
	}
}

func renderLits(ls []f.Literal) string {
	s := append([]f.Literal{}, ls...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return fmt.Sprint(s)
}

func renderModels(ms []*model.Model) string {
	var s []string
	for _, m := range ms {
		s = append(s, renderLits(m.Literals))
	}
	sort.Strings(s)
	return fmt.Sprint(len(ms), s)
}

func renderModel(m *model.Model) string {
	if m == nil {
		return "none"
	}
	return renderLits(m.Literals)
}

func (o *ownership) spoilModel(m *model.Model) {
	if m == nil {
		return
	}
	spoilSlice[f.Literal](o)(m.Literals)
	m.AddLiteral(o.w.Vars()[0].AsLiteral())
}

func (o *ownership) spoilModels(ms []*model.Model) {
	for _, m := range ms {
		if o.r.Bool() {
			o.spoilModel(m)
		}
	}
	spoilSlice[*model.Model](o)(ms)
}

func (o *ownership) someVars(pct int) []f.Variable {
	return shuffled(o.r, o.w.VarsOf(o.r.Subset(o.w.N, pct)))
}

func (o *ownership) someLits(pct int) []f.Literal {
	var ls []f.Literal
	for _, v := range o.someVars(pct) {
		l := v.AsLiteral()
		if o.r.Bool() {
			l = l.Negate(o.w.F)
		}
		ls = append(ls, l)
	}
	return ls
}

// formula picks a formula, without constraints if so wanted.
func (o *ownership) formula(pb bool) (f.Formula, *Node) {
	for i := 0; i < 30; i++ {
		k := o.r.Intn(len(o.pool))
		if pb || !o.node[k].HasPB() {
			return o.pool[k], o.node[k]
		}
	}
	o.c.Skip("only constraints")
	return 0, nil
}

func (o *ownership) formulas(n int, pb bool) ([]f.Formula, *Node) {
	var gs []f.Formula
	all := &Node{K: KAnd}
	for i := 0; i < n; i++ {
		g, nd := o.formula(pb)
		gs = append(gs, g)
		all.Ops = append(all.Ops, nd)
	}
	return gs, all
}

var p34ops = []struct {
	name string
	run  func(o *ownership)
}{
	{"construction", func(o *ownership) {
		fac, r := o.w.F, o.r
		gs, _ := o.formulas(r.Range(0, 4), true)
		if r.P(30) {
			gs = append(gs, fac.Verum(), fac.Falsum())
			gs = shuffled(r, gs)
		}
		lits, vars := o.someLits(60), o.someVars(60)
		cf := make([]int, len(lits))
		for i := range cf {
			cf[i] = r.Range(-3, 3)
		}
		k, cs := r.Intn(9), csorts[r.Intn(5)]
		rhs := r.Range(0, 4)
		repeat(o, fmt.Sprintf("construction %d", k), func() f.Formula {
			switch k {
			case 0:
				return fac.And(arg(o, "operands", gs)...)
			case 1:
				return fac.Or(arg(o, "operands", gs)...)
			case 2:
				g, err := fac.NaryOperator(f.SortAnd, arg(o, "operands", gs)...)
				o.c.Check(err == nil, "NaryOperator: %v", err)
				return g
			case 3:
				return fac.Minterm(arg(o, "literals", lits)...)
			case 4:
				return fac.Clause(arg(o, "literals", lits)...)
			case 5:
				return fac.CC(cs, uint32(rhs), arg(o, "variables", vars)...)
			case 6:
				return fac.AMO(arg(o, "variables", vars)...)
			case 7:
				return fac.EXO(arg(o, "variables", vars)...)
			default:
				return fac.PBC(cs, rhs, arg(o, "literals", lits), arg(o, "coefficients", cf))
			}
		}, o.renderFormula, nil)
	}},
	{"conversions", func(o *ownership) {
		lits, vars := o.someLits(70), o.someVars(70)
		repeat(o, "VariablesAsLiterals", func() []f.Literal { return f.VariablesAsLiterals(arg(o, "variables", vars)) }, renderSlice, spoilSlice[f.Literal](o))
		repeat(o, "VariablesAsFormulas", func() []f.Formula { return f.VariablesAsFormulas(arg(o, "variables", vars)) }, renderSlice, spoilSlice[f.Formula](o))
		repeat(o, "LiteralsAsFormulas", func() []f.Formula { return f.LiteralsAsFormulas(arg(o, "literals", lits)) }, renderSlice, spoilSlice[f.Formula](o))
		repeat(o, "LiteralsAsVariables", func() []f.Variable {
			vs, _ := f.LiteralsAsVariables(arg(o, "literals", lits))
			return vs
		}, renderSlice, spoilSlice[f.Variable](o))
	}},
	{"sets", func(o *ownership) {
		r := o.r
		gs, _ := o.formulas(r.Range(1, 3), true)
		vars, more := o.someVars(60), o.someVars(40)
		content := func(s *f.VarSet) string { return fmt.Sprint(s.Size(), s.Content()) }
		repeat(o, "Variables", func() *f.VarSet { return f.Variables(o.w.F, arg(o, "formulas", gs)...) }, content, nil)
		repeat(o, "Literals", func() *f.LitSet { return f.Literals(o.w.F, arg(o, "formulas", gs)...) },
			func(s *f.LitSet) string { return fmt.Sprint(s.Size(), s.Content()) }, nil)
		repeat(o, "NewVarSet", func() *f.VarSet { return f.NewVarSet(arg(o, "variables", vars)...) }, content, nil)
		repeat(o, "NewLitSet", func() *f.LitSet { return f.NewLitSet(arg(o, "literals", f.VariablesAsLiterals(vars))...) },
			func(s *f.LitSet) string { return fmt.Sprint(s.Content()) }, nil)
		repeat(o, "NewFormulaSet", func() *f.FormulaSet { return f.NewFormulaSet(arg(o, "formulas", gs)...) },
			func(s *f.FormulaSet) string { return fmt.Sprint(s.Content()) }, nil)
		repeat(o, "set algebra", func() *f.MutableVarSet {
			a, b := f.NewVarSet(vars...), f.Variables(o.w.F, gs[0])
			for _, s := range []*f.VarSet{a, b} {
				argAny(o, "set", func() string { return content(s) }, nil)
			}
			s := f.NewMutableVarSetCopy(a, b)
			s.RemoveAll(f.NewVarSet(more...))
			xs := arg(o, "elements", more)
			s.AddAllElements(&xs)
			s.RemoveAll(b)
			s.AddAll(a)
			return s
		}, func(s *f.MutableVarSet) string { return content(s.AsImmutable()) }, func(s *f.MutableVarSet) {
			s.RemoveAll(f.NewVarSet(vars...))
		})
		repeat(o, "copy of sets", func() *f.VarSet {
			a, b := f.NewVarSet(vars...), f.NewMutableVarSet(more...)
			s := f.NewVarSetCopy(a, b.AsImmutable())
			for _, v := range more {
				b.Remove(v)
			}
			b.AddAll(f.NewVarSet(o.w.Vars()...))
			return s
		}, content, nil)
	}},
	{"functions", func(o *ownership) {
		g, _ := o.formula(true)
		repeat(o, "SubNodes", func() []f.Formula { return f.SubNodes(o.w.F, g) }, renderSlice, spoilSlice[f.Formula](o))
		repeat(o, "LiteralProfile", func() map[f.Literal]int { return f.LiteralProfile(o.w.F, g) }, renderMap, func(m map[f.Literal]int) { clear(m) })
		repeat(o, "VariableProfile", func() map[f.Variable]int { return f.VariableProfile(o.w.F, g) }, renderMap, func(m map[f.Variable]int) { clear(m) })
	}},
	{"orders", func(o *ownership) {
		g, _ := o.formula(false)
		k := o.r.Intn(5)
		repeat(o, fmt.Sprintf("variable order %d", k), func() []f.Variable {
			switch k {
			case 0:
				return bdd.BFSOrder(o.w.F, g)
			case 1:
				return bdd.DFSOrder(o.w.F, g)
			case 2:
				return bdd.MaxToMinOrder(o.w.F, g)
			case 3:
				return bdd.MinToMaxOrder(o.w.F, g)
			default:
				vs := bdd.ForceOrder(o.w.F, g) // its order depends on new auxiliary variables
				return f.NewVarSet(vs...).Content()
			}
		}, renderSlice, spoilSlice[f.Variable](o))
	}},
	{"assignments", func(o *ownership) {
		fac := o.w.F
		g, nd := o.formula(true)
		lits := o.someLits(70)
		full := o.someLits(100)
		repeat(o, "assignment", func() *assignment.Assignment {
			a, err := assignment.New(fac, arg(o, "literals", lits)...)
			o.c.Check(err == nil, "assignment: %v", err)
			return a
		}, func(a *assignment.Assignment) string { return fmt.Sprint(a.Size(), " ", a.Sprint(fac)) }, func(a *assignment.Assignment) {
			a.AddLit(fac, full[0])
			spoilSlice[f.Variable](o)(a.PosVars())
		})
		a, _ := assignment.New(fac, lits...)
		watch := func() { argAny(o, "assignment", func() string { return a.Sprint(fac) }, nil) }
		repeat(o, "Restrict", func() f.Formula { watch(); return assignment.Restrict(fac, g, a) }, o.renderFormula, nil)
		repeat(o, "Evaluate", func() bool { watch(); return assignment.Evaluate(fac, g, a) }, func(b bool) string { return fmt.Sprint(b) }, nil)
		repeat(o, "FromAssignment", func() *model.Model { watch(); return model.FromAssignment(fac, *a) }, renderModel, o.spoilModel)
		repeat(o, "Assignment of a model", func() *assignment.Assignment {
			m := model.New(arg(o, "literals of the model", full)...)
			x, err := m.Assignment(fac)
			o.c.Check(err == nil, "assignment of a model: %v", err)
			o.c.Check(len(m.PosVars())+len(m.NegVars()) == m.Size() && len(m.NegLits()) == len(m.NegVars()), "phases of a model")
			m.Formula(fac)
			return x
		}, func(a *assignment.Assignment) string { return a.Sprint(fac) }, nil)
		if !nd.HasPB() {
			mp := map[f.Variable]bool{}
			for _, l := range lits {
				mp[l.Variable()] = l.IsPos()
			}
			repeat(o, "EvaluatesTo", func() string {
				argAny(o, "map", func() string { return renderMap(mp) }, nil)
				return fmt.Sprint(assignment.EvaluatesToTrue(fac, g, mp), assignment.EvaluatesToFalse(fac, g, mp))
			}, func(s string) string { return s }, nil)
		}
	}},
	{"encodings", func(o *ownership) {
		fac, r := o.w.F, o.r
		vars := o.someVars(90)
		if len(vars) == 0 {
			return
		}
		cc := fac.CC(csorts[r.Intn(5)], uint32(r.Range(0, len(vars))), vars...)
		lits := o.someLits(90)
		cf := make([]int, len(lits))
		for i := range cf {
			cf[i] = r.Range(-3, 5)
		}
		pbc := fac.PBC(csorts[r.Intn(5)], r.Range(-2, 6), lits, cf)
		cfg := randEncConfig(r)
		for i := 0; i < 2; i++ {
			if cc.Sort() == f.SortCC {
				gs, err := encoding.EncodeCC(fac, cc, argCfg(o, cfg))
				o.c.Check(err == nil, "EncodeCC: %v", err)
				o.called("EncodeCC")
				if r.P(40) {
					spoilSlice[f.Formula](o)(gs)
				} else {
					o.hold("EncodeCC", func() string { return renderSlice(gs) })
				}
			}
			if pbc.Sort() == f.SortPBC || pbc.Sort() == f.SortCC {
				gs, err := encoding.EncodePBC(fac, pbc, argCfg(o, cfg))
				o.c.Check(err == nil, "EncodePBC: %v", err)
				o.called("EncodePBC")
				if r.P(40) {
					spoilSlice[f.Formula](o)(gs)
				} else {
					o.hold("EncodePBC", func() string { return renderSlice(gs) })
				}
			}
		}
		o.c.Obs("calls", 1)
	}},
	{"normal forms", func(o *ownership) {
		g, _ := o.formula(true)
		cfg := normalform.DefaultCNFConfig()
		cfg.Algorithm = normalform.CNFAlgorithm(o.r.Intn(4))
		cfg.AtomBoundary = o.r.Range(0, 6)
		cfg.DistributionBoundary = o.r.Range(-1, 4)
		cfg.CreatedClauseBoundary = o.r.Range(-1, 6)
		h := normalform.CNF(o.w.F, g, argCfg(o, cfg))
		o.called("CNF")
		o.hold("CNF", func() string { return o.renderFormula(h) })
		o.c.Obs("calls", 1)
	}},
	{"enumeration", func(o *ownership) {
		g, _ := o.formula(true)
		vars, add := o.someVars(60), o.someVars(30)
		cfg := randIterConfig(o.r, o.w)
		repeat(o, "enum.OnFormula", func() string {
			ms, st := enum.OnFormulaWithConfig(o.w.F, g, arg(o, "variables", vars), argCfg(o, cfg), arg(o, "additional variables", add)...)
			o.c.Check(st.Success, "enumeration not successful")
			o.hold("enum.OnFormula", func() string { return renderModels(ms) })
			// only the projection is determined
			p := f.NewVarSet(vars...)
			var s []string
			for _, m := range ms {
				var ls []f.Literal
				for _, l := range m.Literals {
					if p.Contains(l.Variable()) {
						ls = append(ls, l)
					}
				}
				s = append(s, renderLits(ls))
			}
			sort.Strings(s)
			return strings.Join(s, " ")
		}, func(s string) string { return s }, nil)
		if set := f.NewVarSet(o.someVars(40)...); o.r.Bool() {
			p := f.NewVarSet(vars...)
			if p.ContainsAll(set) && !set.Empty() {
				argAny(o, "split variables", func() string { return fmt.Sprint(set.Content()) }, nil)
				cfg = &iter.Config{Handler: handler.NopHandler, Strategy: iter.NewBasicStrategy(iter.NewFixedVarProvider(set), o.r.Range(3, 8))}
			}
		}
		repeat(o, "count.OnFormula", func() *big.Int {
			n, st := count.OnFormulaWithConfig(o.w.F, g, arg(o, "variables", vars), argCfg(o, cfg))
			o.c.Check(st.Success, "count not successful")
			return n
		}, (*big.Int).String, spoilBig)
		repeat(o, "enum.OnFormula over all variables", func() []*model.Model {
			return enum.OnFormula(o.w.F, g, arg(o, "variables", o.w.Vars()))
		}, renderModels, o.spoilModels)
	}},
	{"counting", func(o *ownership) {
		gs, all := o.formulas(o.r.Range(1, 3), false)
		_ = all
		vars := f.Variables(o.w.F, gs...).Content()
		vars = shuffled(o.r, vars)
		repeat(o, "count.Count", func() *big.Int {
			n, err := count.Count(o.w.F, arg(o, "variables", vars), arg(o, "formulas", gs)...)
			o.c.Check(err == nil, "count: %v", err)
			return n
		}, (*big.Int).String, spoilBig)
		g, _ := o.formula(false)
		d := dnnf.Compile(o.w.F, g)
		o.hold("dnnf.Compile", func() string { return o.renderFormula(d.Formula) + fmt.Sprint(d.OriginalVars.Content()) })
		repeat(o, "DNNF.ModelCount", func() *big.Int { return d.ModelCount() }, (*big.Int).String, spoilBig)
	}},
	{"transformations", func(o *ownership) {
		fac := o.w.F
		g, nd := o.formula(false)
		vars := o.someVars(40)
		repeat(o, "ExistentialQE", func() f.Formula { return transformation.ExistentialQE(fac, g, arg(o, "variables", vars)...) }, o.renderFormula, nil)
		repeat(o, "UniversalQE", func() f.Formula { return transformation.UniversalQE(fac, g, arg(o, "variables", vars)...) }, o.renderFormula, nil)
		mp := map[f.Literal]f.Literal{}
		for _, l := range o.someLits(50) {
			if x := o.someLits(40); len(x) > 0 {
				mp[l] = x[0]
			}
		}
		repeat(o, "SubstituteLiterals", func() f.Formula {
			argAny(o, "map", func() string { return renderMap(mp) }, nil)
			return transformation.SubstituteLiterals(fac, g, &mp)
		}, o.renderFormula, nil)
		if !nd.HasPB() {
			vm := map[f.Variable]f.Formula{}
			for _, v := range o.someVars(50) {
				vm[v], _ = o.formula(false)
			}
			repeat(o, "Substitute", func() f.Formula {
				s := transformation.NewSubstitution()
				mm := map[f.Variable]f.Formula{}
				for k, v := range vm {
					mm[k] = v
				}
				argAny(o, "map", func() string { return renderMap(mm) }, nil)
				s.AddMapping(mm)
				if o.r.Bool() {
					for k := range mm {
						mm[k] = fac.Falsum()
					}
					o.args = o.args[:len(o.args)-1]
				}
				h, err := transformation.Substitute(fac, g, s)
				o.c.Check(err == nil, "substitute: %v", err)
				return h
			}, o.renderFormula, nil)
		}
	}},
	{"BDDs", func(o *ownership) {
		fac := o.w.F
		g, _ := o.formula(false)
		order := shuffled(o.r, o.w.Vars())
		b := bdd.CompileWithVarOrder(fac, g, arg(o, "order", order))
		o.called("CompileWithVarOrder")
		wantOrder := fmt.Sprint(order)
		o.c.Check(fmt.Sprint(b.VariableOrder()) == wantOrder, "order is %v, not %v", b.VariableOrder(), order)
		k := bdd.NewKernelWithOrdering(fac, arg(o, "order", order), 100, 100)
		o.called("NewKernelWithOrdering")
		vars, lits := o.someVars(40), o.someLits(40)
		repeat(o, "BDD.ModelCount", func() *big.Int { return b.ModelCount() }, (*big.Int).String, spoilBig)
		repeat(o, "BDD.PathCountOne", func() *big.Int { return b.PathCountOne() }, (*big.Int).String, spoilBig)
		repeat(o, "BDD.PathCountZero", func() *big.Int { return b.PathCountZero() }, (*big.Int).String, spoilBig)
		repeat(o, "BDD.NumberOfCNFClauses", func() *big.Int { return b.NumberOfCNFClauses() }, (*big.Int).String, spoilBig)
		repeat(o, "BDD.Support", func() []f.Variable { return b.Support() }, renderSlice, spoilSlice[f.Variable](o))
		repeat(o, "BDD.VariableOrder", func() []f.Variable { return b.VariableOrder() }, renderSlice, spoilSlice[f.Variable](o))
		repeat(o, "BDD.VariableProfile", func() map[f.Variable]int { return b.VariableProfile() }, renderMap, func(m map[f.Variable]int) { clear(m) })
		ev := o.someVars(60)
		repeat(o, "BDD.ModelEnumeration", func() []*model.Model { return b.ModelEnumeration(arg(o, "variables", ev)...) }, renderModels, o.spoilModels)
		repeat(o, "BDD.ModelWithVariables", func() *model.Model {
			m, _ := b.ModelWithVariables(true, arg(o, "variables", ev)...)
			return m
		}, renderModel, o.spoilModel)
		tt := func(x *bdd.BDD) string { return o.renderFormula(x.DNF()) }
		repeat(o, "BDD.Exists", func() *bdd.BDD { return b.Exists(arg(o, "variables", vars)...) }, tt, nil)
		repeat(o, "BDD.ForAll", func() *bdd.BDD { return b.ForAll(arg(o, "variables", vars)...) }, tt, nil)
		repeat(o, "BDD.Restrict", func() *bdd.BDD { return b.Restrict(arg(o, "literals", lits)...) }, tt, nil)
		repeat(o, "CompileLiterals", func() *bdd.BDD { return bdd.CompileLiterals(arg(o, "literals", lits), k) }, tt, nil)
		o.c.Check(fmt.Sprint(b.VariableOrder()) == wantOrder, "order is %v after the operations, not %v", b.VariableOrder(), order)
	}},
	{"graphs", func(o *ownership) {
		fac := o.w.F
		gs, _ := o.formulas(o.r.Range(1, 4), true)
		comps := graph.ComputeConnectedComponents(graph.GenerateConstraintGraph(fac, arg(o, "formulas", gs)...))
		o.called("GenerateConstraintGraph")
		canon := func(cs [][]f.Variable) string {
			var s []string
			for _, c := range cs {
				s = append(s, fmt.Sprint(f.NewVarSet(c...).Content()))
			}
			sort.Strings(s)
			return fmt.Sprint(s)
		}
		gr := graph.GenerateConstraintGraph(fac, gs...)
		repeat(o, "ComputeConnectedComponents", func() [][]f.Variable { return graph.ComputeConnectedComponents(gr) }, canon, func(cs [][]f.Variable) {
			for _, c := range cs {
				spoilSlice[f.Variable](o)(c)
			}
		})
		repeat(o, "SplitFormulasByComponent", func() [][]f.Formula {
			cs := arg(o, "components", comps)
			for i := range cs {
				c := cs[i]
				argAny(o, "component", func() string { return fmt.Sprint(c) }, nil)
			}
			return graph.SplitFormulasByComponent(fac, arg(o, "formulas", gs), cs)
		}, renderSlice, func(x [][]f.Formula) {
			for _, l := range x {
				spoilSlice[f.Formula](o)(l)
			}
		})
		var cls []f.Formula
		for _, c := range GenClauses(o.r, o.w.N, o.r.Range(1, 6), 1, 3) {
			cls = append(cls, fac.Clause(o.w.Lits(c)...))
		}
		hg, err := graph.HypergraphFromClauses(fac, arg(o, "clauses", cls)...)
		o.c.Check(err == nil && hg != nil, "hypergraph: %v", err)
		o.called("HypergraphFromClauses")
	}},
	{"explanations", func(o *ownership) {
		fac := o.w.F
		gs, all := o.formulas(o.r.Range(2, 5), true)
		if o.r.Bool() {
			g, nd := o.formula(true)
			gs = append(gs, fac.Not(g), g)
			all.Ops = append(all.Ops, nNot(nd), nd)
		}
		props := make([]f.Proposition, len(gs))
		for i, g := range gs {
			props[i] = f.NewStandardProposition(g, fmt.Sprint(i))
		}
		unsat := all.TT(o.w.N).IsFalse()
		text := func(ps []f.Proposition) string {
			s := ""
			for _, p := range ps {
				s += fmt.Sprintf("%v:%d ", p.(*f.StandardProposition).Description, p.Formula())
			}
			return s
		}
		k := o.r.Intn(2)
		repeat(o, "MUS", func() []f.Proposition {
			ps := arg(o, "propositions", props)
			fn := mus.ComputeInsertionBased
			if k == 1 {
				fn = mus.ComputeDeletionBased
			}
			core, err := fn(fac, &ps)
			o.c.Check((err == nil) == unsat, "MUS: %v", err)
			o.c.Check(len(ps) == len(props), "MUS computation changes its list")
			if err != nil {
				return nil
			}
			return core.Propositions
		}, text, spoilSlice[f.Proposition](o))
		cut := o.r.Intn(len(gs))
		repeat(o, "SMUS", func() string {
			x := smus.ComputeForFormulas(fac, arg(o, "formulas", gs[cut:]), arg(o, "constraints", gs[:cut])...)
			o.hold("SMUS", func() string { return renderSlice(x) })
			return fmt.Sprint(x == nil, len(x))
		}, func(s string) string { return s }, nil)
		repeat(o, "SMUS of propositions", func() int {
			return len(smus.Compute(fac, arg(o, "propositions", props[cut:]), arg(o, "constraints", gs[:cut])...))
		}, func(k int) string { return fmt.Sprint(k) }, nil)
	}},
	{"primes", func(o *ownership) {
		g, _ := o.formula(false)
		render := func(p *primeimplicant.PrimeResult) string {
			var s []string
			ls := p.Implicants
			if p.CoverSort == primeimplicant.CoverImplicates {
				ls = p.Implicates
			}
			for _, l := range ls {
				s = append(s, renderLits(l))
			}
			sort.Strings(s)
			return fmt.Sprint(s)
		}
		cs := pick(o.r, primeimplicant.CoverImplicants, primeimplicant.CoverImplicates)
		fn := primeimplicant.CoverMin
		if o.r.Bool() {
			fn = primeimplicant.CoverMax
		}
		repeat(o, "prime cover", func() *primeimplicant.PrimeResult { return fn(o.w.F, g, cs) }, render, func(p *primeimplicant.PrimeResult) {
			for _, l := range append(p.Implicants, p.Implicates...) {
				spoilSlice[f.Literal](o)(l)
			}
		})
	}},
	{"set covers", func(o *ownership) {
		n := o.r.Range(1, 6)
		sets := make([][]f.Variable, 0)
		for i := 0; i < n; i++ {
			sets = append(sets, o.someVars(50))
		}
		xs := arg(o, "sets", sets)
		for i := range xs {
			xs[i] = arg(o, "set", sets[i])
			if xs[i] == nil {
				xs[i] = sets[i]
			}
		}
		for i := range o.args {
			o.args[i].spoil = nil // the cover consists of the given sets
		}
		np.MinimumSetCover(xs)
		o.called("MinimumSetCover")
		o.c.Obs("calls", 1)
	}},
	{"simplifiers", func(o *ownership) {
		fac := o.w.F
		g, _ := o.formula(true)
		cfg := simplification.DefaultConfig()
		cfg.RestrictBackbone = o.r.Bool()
		cfg.FactorOut = o.r.Bool()
		cfg.SimplifyNegations = o.r.Bool()
		cfg.UseRatingFunction = o.r.Bool()
		was := *cfg
		simplification.Advanced(fac, g, cfg)
		o.c.Check(cfg.RestrictBackbone == was.RestrictBackbone && cfg.FactorOut == was.FactorOut &&
			cfg.SimplifyNegations == was.SimplifyNegations && cfg.UseRatingFunction == was.UseRatingFunction &&
			(cfg.RatingFunction == nil) == (was.RatingFunction == nil), "Advanced changes its configuration")
		o.c.Obs("arguments watched", 1)
		o.c.Obs("calls", 1)
	}},
	{"randomizer", func(o *ownership) {
		cfg := randomizer.DefaultConfig()
		cfg.Seed = int64(o.r.Range(1, 1000))
		cfg.Variables = arg(o, "variables", o.w.Vars())
		argCfg(o, cfg)
		x := randomizer.New(o.w.F, cfg)
		for i := 0; i < 3; i++ {
			g := x.Formula(2)
			o.hold("randomizer", func() string { return o.renderFormula(g) })
		}
		for i := range o.args {
			o.args[i].spoil = nil
		}
		o.called("randomizer")
		o.c.Obs("calls", 1)
	}},
	{"solver", p34solver},
	{"MaxSAT", p34maxsat},
}

// randIterConfig is a random configuration for complete model iterations.
func randIterConfig(r *Rng, w *World) *iter.Config {
	cfg := iter.DefaultConfig()
	if r.Bool() {
		cfg.Strategy = iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), r.Range(2, 8))
	}
	return cfg
}

// p34solver lets one solver live through a sequence of calls; after each the
// content is judged, so arguments kept by the solver show.
func p34solver(o *ownership) {
	c, r, fac := o.c, o.r, o.w.F
	cfg := randSatConfig(r)
	was := fmt.Sprintf("%+v", *cfg)
	s := sat.NewSolver(fac, cfg)
	tt := TTConst(o.w.N, true)
	known := func() []f.Variable { return o.w.Vars() }
	s.Add(fac.Or(fac.Verum(), o.pool[0]))
	for i := r.Range(3, 8); i > 0; i-- {
		switch r.Intn(9) {
		case 0, 1:
			gs, all := o.formulas(r.Range(1, 3), true)
			s.Add(arg(o, "formulas", gs)...)
			o.called("Solver.Add")
			tt = tt.And(all.TT(o.w.N))
		case 2:
			gs, all := o.formulas(r.Range(1, 3), true)
			var ps []f.Proposition
			for _, g := range gs {
				ps = append(ps, f.NewStandardProposition(g))
			}
			s.AddProposition(arg(o, "propositions", ps)...)
			o.called("Solver.AddProposition")
			tt = tt.And(all.TT(o.w.N))
		case 3, 4:
			gs, all := o.formulas(r.Range(0, 3), true)
			lits, vars := o.someLits(30), o.someVars(20)
			call := tt.And(all.TT(o.w.N))
			for _, l := range lits {
				p := o.w.PLit(l)
				call = call.And((&Node{K: KLit, L: p}).TT(o.w.N))
			}
			for _, v := range vars {
				call = call.And(TTVar(o.w.N, o.w.PLit(v.AsLiteral()).V))
			}
			mv := o.someVars(70)
			p := sat.Params()
			if r.P(60) { // propositions first: their slice has room for what is added later
				ps := make([]f.Proposition, len(gs))
				for i, g := range gs {
					ps[i] = f.NewStandardProposition(g)
				}
				p.Proposition(arg(o, "propositions", ps)...)
			} else {
				p.Formula(arg(o, "formulas", gs)...)
			}
			p.Literal(arg(o, "literals", lits)...).Variable(arg(o, "variables", vars)...)
			if r.Bool() {
				o.called("Params")
			}
			p.WithModel(arg(o, "model variables", mv)).WithUPZeros()
			if cfg.ProofGeneration {
				p.WithCore()
			}
			for k := 0; k < 2; k++ { // parameters can be used again
				res := s.Call(p)
				c.Check(res.OK() && res.Sat() == !call.IsFalse(), "call %d is satisfiable: %v", k, res.Sat())
				if res.Sat() {
					m := res.Model()
					mask, val, bad := o.w.LitsAsg(m.Literals)
					c.Check(bad == "", "model: %s", bad)
					ok := false
					for _, a := range call.Models() {
						ok = ok || a&mask == val&mask
					}
					c.Check(ok, "model %s violates the formulas", m.Sprint(fac))
					up := res.UpZeroLits()
					if r.Bool() {
						o.spoilModel(m)
						spoilSlice[f.Literal](o)(up)
						c.Obs("results changed by their owner", 1)
					} else {
						o.hold("model of a call", func() string { return renderModel(m) })
						o.hold("propagated literals", func() string { return renderSlice(up) })
					}
				} else if core := res.UnsatCore(); core != nil {
					ps := core.Propositions
					if r.Bool() {
						spoilSlice[f.Proposition](o)(ps)
					} else {
						o.hold("core", func() string { return fmt.Sprint(len(ps), ps) })
					}
				}
			}
			o.called("Solver.Call")
		case 5:
			lits, add := o.someLits(60), o.someVars(30)
			var m *model.Model
			if r.Bool() {
				m = s.Maximize(arg(o, "literals", lits), arg(o, "additional variables", add)...)
			} else {
				m = s.Minimize(arg(o, "literals", lits), arg(o, "additional variables", add)...)
			}
			o.called("optimisation")
			c.Check((m == nil) == tt.IsFalse(), "optimum of a solver")
			if r.Bool() {
				o.spoilModel(m)
			} else {
				o.hold("optimum", func() string { return renderModel(m) })
			}
		case 6:
			bb := s.ComputeBackbone(fac, arg(o, "variables", known()))
			o.called("ComputeBackbone")
			if bb.Sat && r.Bool() {
				spoilSlice[f.Variable](o)(bb.Positive)
				spoilSlice[f.Variable](o)(bb.Optional)
			} else {
				o.hold("backbone", func() string { return fmt.Sprint(*bb) })
			}
		case 7:
			vars, add := o.someVars(60), o.someVars(30)
			ms := enum.OnSolver(s, arg(o, "variables", vars), arg(o, "additional variables", add)...)
			o.called("enum.OnSolver")
			if r.Bool() {
				o.spoilModels(ms)
			} else {
				o.hold("enum.OnSolver", func() string { return renderModels(ms) })
			}
			set := f.NewVarSet(vars...)
			argAny(o, "set", func() string { return fmt.Sprint(set.Content()) }, nil)
			occ := s.VarOccurrences(set)
			o.called("VarOccurrences")
			if r.Bool() {
				clear(occ)
			} else {
				o.hold("VarOccurrences", func() string { return renderMap(occ) })
			}
			b := enum.ToBddOnSolver(s, arg(o, "variables", vars))
			o.called("enum.ToBddOnSolver")
			o.hold("enum.ToBddOnSolver", func() string { return o.renderFormula(b.DNF()) })
			k := count.OnSolver(s, arg(o, "variables", vars))
			o.called("count.OnSolver")
			c.Check(k.Cmp(big.NewInt(int64(len(ms)))) == 0, "%d models but count %v", len(ms), k)
		case 8:
			gs := s.FormulasOnSolver()
			if r.Bool() {
				spoilSlice[f.Formula](o)(gs)
			} else {
				o.hold("FormulasOnSolver", func() string { return renderSlice(gs) })
			}
		}
		c.Check(s.Sat() == !tt.IsFalse(), "solver is satisfiable: %v", s.Sat())
		c.Obs("solver steps", 1)
	}
	ms := enum.OnSolver(s, known())
	c.Check(len(ms) == tt.Count(), "%d models on the solver, not %d", len(ms), tt.Count())
	c.Check(fmt.Sprintf("%+v", *cfg) == was, "the solver changes its configuration")
}

// p34maxsat does so with a MaxSAT solver.
func p34maxsat(o *ownership) {
	c, r, fac := o.c, o.r, o.w.F
	cfg := maxsat.DefaultConfig()
	was := fmt.Sprintf("%+v", *cfg)
	s := pick(r, maxsat.OLL, maxsat.WBO, maxsat.IncWBO, maxsat.LinearSU)(fac, cfg)
	tt := TTConst(o.w.N, true)
	type soft struct {
		t TT
		w int
	}
	var softs []soft
	for i := r.Range(1, 3); i > 0; i-- {
		gs, all := o.formulas(r.Range(1, 2), true)
		s.AddHardFormula(arg(o, "formulas", gs)...)
		o.called("AddHardFormula")
		tt = tt.And(all.TT(o.w.N))
		for j := r.Range(1, 3); j > 0; j-- {
			g, nd := o.formula(true)
			w := r.Range(1, 4)
			c.Check(s.AddSoftFormula(g, w) == nil, "soft formula refused")
			softs = append(softs, soft{nd.TT(o.w.N), w})
		}
		best := -1
		for _, a := range tt.Models() {
			cost := 0
			for _, x := range softs {
				if !x.t.Get(a) {
					cost += x.w
				}
			}
			if best < 0 || cost < best {
				best = cost
			}
		}
		for k := 0; k < 2; k++ {
			res := s.Solve()
			c.Check(res.Satisfiable == (best >= 0), "MaxSAT: %+v but optimum %d", res, best)
			if best < 0 {
				continue
			}
			c.Check(res.Optimum == best, "MaxSAT optimum %d, not %d", res.Optimum, best)
			var base []f.Literal
			for _, l := range res.Model.Literals {
				if nm, _ := fac.VarName(l.Variable()); !strings.HasPrefix(nm, "@") {
					base = append(base, l)
				}
			}
			mask, val, bad := o.w.LitsAsg(base)
			c.Check(bad == "", "model of solve %d: %s", k, bad)
			ok := false
			for _, a := range tt.Models() {
				cost := 0
				for _, x := range softs {
					if !x.t.Get(a) {
						cost += x.w
					}
				}
				ok = ok || a&mask == val&mask && cost == best
			}
			c.Check(ok, "MaxSAT model %s of solve %d is not optimal", res.Model.Sprint(fac), k)
			if r.Bool() {
				o.spoilModel(res.Model)
				c.Obs("results changed by their owner", 1)
			} else {
				m := res.Model
				o.hold("MaxSAT model", func() string { return renderModel(m) })
			}
		}
		c.Obs("MaxSAT steps", 1)
	}
	c.Check(fmt.Sprintf("%+v", *cfg) == was, "the MaxSAT solver changes its configuration")
}

func init() {
	register(&PropDef{ID: "P34", Quick: 40000, Thorough: 600000,
		Rule:   "case = one factory and a history of 3-8 calls out of all areas of the library; every slice, map, set, assignment and configuration given to a call is watched (also what lies behind the end of a slice) and then used otherwise by its owner; every result is watched to the end of the history, or changed by its owner and the call repeated",
		Need:   []string{"arguments watched", "arguments changed by their owner", "results watched", "results changed by their owner", "calls repeated", "solver steps", "MaxSAT steps"},
		Assume: []string{"operands, sets' contents and graphs' nodes are views of the library's own data and not changed by callers", "model.New and the set cover keep the given slices", "configurations are not changed while solvers use them"},
		Run: func(c *Ctx) {
			r := c.R
			w := NewWorld(r, r.Range(3, 6), false)
			o := &ownership{c: c, r: r, w: w}
			cfg := stdCfg(r, w.N)
			cfg.Depth = r.Range(1, 3)
			for i := r.Range(4, 7); i > 0; i-- {
				g := cfg
				if r.P(30) {
					g.CC, g.PB = 2, 1
				}
				n := Gen(r, g)
				o.node = append(o.node, n)
				o.pool = append(o.pool, w.Build(n))
			}
			o.node = append(o.node, nLit(0, true))
			o.pool = append(o.pool, w.Build(nLit(0, true)))
			for i := r.Range(3, 8); i > 0; i-- {
				op := p34ops[r.Intn(len(p34ops))]
				c.Logf("--- %s", op.name)
				op.run(o)
				o.args = nil
				o.judgeHeld(op.name)
				c.Obs("operations: "+op.name, 1)
			}
			for i, g := range o.pool {
				c.EqTT(w.TTOf(g), o.node[i].TT(w.N), "formula %d at the end", i)
			}
			c.NT(o.pool[0].Sprint(w.F))
		}})
	probe("subnodes-cache-alias", "P34", func(c *Ctx) {
		fac := f.NewFactory()
		g := fac.And(fac.Variable("a"), fac.Or(fac.Variable("b"), fac.Variable("c")))
		x := f.SubNodes(fac, g)
		was := fmt.Sprint(x)
		x[0] = fac.Falsum()
		c.Check(fmt.Sprint(f.SubNodes(fac, g)) == was, "sub-nodes of %s have changed with the list of an earlier caller", g.Sprint(fac))
	})
	probe("maxsat-result-shared", "P34", func(c *Ctx) {
		fac := f.NewFactory()
		s := maxsat.OLL(fac)
		s.AddHardFormula(fac.Or(fac.Variable("a"), fac.Variable("b")))
		s.AddSoftFormula(fac.Variable("a"), 1)
		m := s.Solve().Model
		was := renderModel(m)
		m.AddLiteral(fac.Lit("z", true))
		m.Literals[0] = fac.Lit("y", false)
		c.Check(renderModel(s.Solve().Model) == was, "the model of a MaxSAT solver has changed with the one of an earlier call")
	})
}
