package main

import (
	"fmt"
	"math/bits"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

func init() {
	probe("split-unknown-variables", "P17", func(c *Ctx) {
		fac := f.NewFactory()
		for _, n := range []string{"u1", "u2", "u3", "u4"} {
			fac.Variable(n)
		}
		s := sat.NewSolver(fac)
		a, b, x := fac.Variable("a"), fac.Variable("b"), fac.Variable("x")
		s.Add(fac.Or(a, b, x))
		var vars []f.Variable
		for _, n := range []string{"u1", "u2", "u3", "u4", "a", "b", "x"} {
			vars = append(vars, fac.Var(n))
		}
		cfg := &iter.Config{Handler: &CancelAt{N: 20000, Sticky: true}, Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), 3)}
		ms, st := enum.OnSolverWithConfig(s, vars, cfg)
		c.Check(st.Success, "enumeration over 3 known and 4 unknown variables with splitting did not end within 20000 events")
		c.Check(len(ms) == 7*16, "%d models instead of 112", len(ms))
	})
	probe("additional-projection-overlap", "P17", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		s.Add(fac.Variable("a"))
		for _, m := range enum.OnSolver(s, fac.Vars("a", "u"), fac.Vars("u")...) {
			c.Check(len(m.Literals) == 2, "model over a and u, u additional and unknown: %s", m.Sprint(fac))
		}
	})
	probe("additional-unknown-split", "P17", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		s.Add(fac.Or(fac.Variable("a"), fac.Variable("b"), fac.Variable("x")))
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), 3)}
		ms, _ := enum.OnSolverWithConfig(s, fac.Vars("a", "b", "x"), cfg, fac.Vars("u")...)
		c.Check(len(ms) == 7, "%d models instead of 7", len(ms))
		for _, m := range ms {
			c.Check(len(m.Literals) == 4, "model over a, b, x and the unknown additional u: %s", m.Sprint(fac))
		}
	})
	probe("enumeration-cancel-lost", "P16", func(c *Ctx) {
		for n := 1; n < 60; n++ {
			fac := f.NewFactory()
			s := sat.NewSolver(fac)
			a, b, x := fac.Variable("a"), fac.Variable("b"), fac.Variable("x")
			s.Add(fac.Or(a, b, x))
			h := &CancelAt{N: n}
			cfg := &iter.Config{Handler: h, Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), 3)}
			ms, st := enum.OnSolverWithConfig(s, []f.Variable{fac.Var("a"), fac.Var("b"), fac.Var("x")}, cfg)
			c.Check(!st.Success || len(ms) == 7, "cancelling event %d of an enumeration gives %d of 7 models and reports success", n, len(ms))
			ms = enum.OnSolver(s, []f.Variable{fac.Var("a"), fac.Var("b"), fac.Var("x")})
			c.Check(len(ms) == 7, "after an enumeration cancelled at event %d the solver has %d of 7 models", n, len(ms))
		}
	})
}

// enumStrategy draws an enumeration strategy whose limits guarantee progress.
type depthStrategy struct {
	iter.BasicStrategy
	iterMax, splitMax []int
	reduceAll         bool
}

func (s depthStrategy) MaxModelsForIter(d int) int { return s.iterMax[d%len(s.iterMax)] }
func (s depthStrategy) MaxModelsForSplitAssignments(d int) int {
	return s.splitMax[d%len(s.splitMax)]
}

func randProvider(r *Rng, w *World, proj []int) (iter.SplitProvider, string) {
	rate, mv := pick(r, 0, 0.1, 0.5, 0.9, 1), pick(r, 0, 1, 2, 3, 18)
	switch r.Intn(5) {
	case 0:
		var vs []int
		for _, v := range proj {
			if r.Bool() {
				vs = append(vs, v)
			}
		}
		return iter.NewFixedVarProvider(f.NewVarSet(w.VarsOf(vs)...)), fmt.Sprintf("fixed%v", vs)
	case 1:
		return iter.NewLeastCommonVarProvider(rate, mv), fmt.Sprintf("least(%v,%d)", rate, mv)
	case 2:
		return iter.NewMostCommonVarProvider(rate, mv), fmt.Sprintf("most(%v,%d)", rate, mv)
	case 3:
		return iter.DefaultLeastCommonVarProvider(), "least"
	}
	return iter.DefaultMostCommonVarProvider(), "most"
}

func randStrategy(r *Rng, w *World, proj []int) (iter.Strategy, string) {
	switch r.Intn(8) {
	case 0:
		return nil, "nil"
	case 1:
		return iter.NewNoSplitMEStrategy(), "nosplit"
	case 2:
		return iter.DefaultStrategy(), "default"
	case 3, 4:
		p, d := randProvider(r, w, proj)
		s := depthStrategy{BasicStrategy: iter.NewBasicStrategy(p, 3)}
		for i := 0; i < r.Range(1, 3); i++ {
			s.iterMax = append(s.iterMax, r.Range(3, 9))
		}
		for i := 0; i < r.Range(1, 3); i++ {
			s.splitMax = append(s.splitMax, r.Range(3, 9))
		}
		return s, fmt.Sprintf("depth(%s,%v,%v)", d, s.iterMax, s.splitMax)
	}
	p, d := randProvider(r, w, proj)
	m := r.Range(0, 12)
	return iter.NewBasicStrategy(p, m), fmt.Sprintf("basic(%s,%d)", d, m)
}

// judgeModels checks an enumeration over proj with additional variables.
func (h *SH) judgeModels(ms [][]f.Literal, proj, add []int, complete bool, what string) {
	c, w := h.c, h.w
	pm, am := uint64(0), uint64(0)
	for _, v := range proj {
		pm |= 1 << uint(v)
	}
	for _, v := range add {
		am |= 1 << uint(v)
	}
	t := h.tt()
	n := uint(w.N)
	want := map[uint64]bool{}
	ext := map[uint64]bool{}
	for a := uint64(0); a < 1<<n; a++ {
		if t.Get(a) {
			want[a&pm] = true
			ext[a&(pm|am)] = true
		}
	}
	got := map[uint64]bool{}
	for _, m := range ms {
		mask, val, err := w.LitsAsg(m)
		c.Check(err == "", "%s: model %s: %s", what, litStr(w, m), err)
		c.Check(len(m) == bits.OnesCount64(mask), "%s: model %s has a variable twice", what, litStr(w, m))
		c.Check(mask == pm|am, "%s: model %s does not assign exactly the projection and additional variables", what, litStr(w, m))
		c.Check(!got[val&pm], "%s: assignment of %s is delivered twice", what, litStr(w, m))
		got[val&pm] = true
		c.Check(want[val&pm], "%s: %s does not extend to a model", what, litStr(w, m))
		// additional variables unknown to the solver are free
		c.Check(ext[val], "%s: additional variables of %s are inconsistent", what, litStr(w, m))
		if am&^pm != 0 {
			c.Obs("additional variables judged", 1)
		}
	}
	if complete {
		c.Check(len(got) == len(want), "%s: %d of %d models delivered", what, len(got), len(want))
	}
	c.Obs("models judged", len(ms))
}

func (h *SH) enumDeep() {
	r, c, w := h.r, h.c, h.w
	proj := r.Subset(w.N, pick(r, 100, 70, 40))
	var add []int
	if r.P(40) {
		add = r.Subset(w.N, pick(r, 60, 30))
	}
	st, sd := randStrategy(r, w, proj)
	var hdl *CancelAt
	cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st}
	if r.P(50) {
		hdl = &CancelAt{N: 400000, Sticky: true, Types: map[string]int{}}
		cfg.Handler = hdl
	}
	plain := st == nil && r.Bool()
	h.logf("enumerate over %v, additional %v, strategy %s", proj, add, sd)
	var ms []*model.Model
	state := handler.Success()
	switch {
	case plain:
		ms = enum.OnSolver(h.s, w.VarsOf(shuffled(r, proj)), w.VarsOf(add)...)
	case st == nil && r.P(30):
		ms, state = enum.OnSolverWithConfig(h.s, w.VarsOf(shuffled(r, proj)), nil, w.VarsOf(add)...)
	default:
		ms, state = enum.OnSolverWithConfig(h.s, w.VarsOf(shuffled(r, proj)), cfg, w.VarsOf(add)...)
	}
	c.Check(state.Success, "%s: enumeration is cancelled", h.what())
	if hdl != nil && hdl.Types[event.ModelEnumerationRollback.EventType()] > 0 {
		c.Obs("enumerations with splits", 1)
	}
	var ls [][]f.Literal
	for _, m := range ms {
		ls = append(ls, m.Literals)
	}
	h.judgeModels(ls, proj, add, true, h.what())
	c.Obs("enumerations", 1)
	if len(ms) > 3 {
		c.NT(fmt.Sprintf("%s|%v|%v|%s", h.what(), proj, add, sd))
	}
	switch r.Intn(6) {
	case 0: // with a limit
		lim := r.Range(1, 8)
		lh := iter.HandlerWithLimit(lim)
		ms, state := enum.OnSolverWithConfig(h.s, w.VarsOf(proj), &iter.Config{Handler: lh, Strategy: st}, w.VarsOf(add)...)
		h.logf("with limit %d: %d models, %v", lim, len(ms), state.Success)
		var ls [][]f.Literal
		for _, m := range ms {
			ls = append(ls, m.Literals)
		}
		h.judgeModels(ls, proj, add, state.Success, h.what()+" with a limit")
		if !state.Success {
			_, nosplit := st.(iter.NoSplitStrategy)
			c.Check(!(nosplit || st == nil) || len(ms) >= lim, "%s: limit %d: only %d models", h.what(), lim, len(ms))
			c.Obs("limited enumerations", 1)
		} else {
			c.Check(len(ms) < lim, "%s: limit %d: %d models and no cancellation", h.what(), lim, len(ms))
		}
	case 1: // as BDD
		bcfg := cfg
		if r.P(20) {
			bcfg = nil
		}
		b, state := enum.ToBddOnSolverWithConfig(h.s, w.VarsOf(shuffled(r, proj)), bcfg)
		if r.Bool() {
			b = enum.ToBddOnSolver(h.s, w.VarsOf(shuffled(r, proj)))
		}
		c.Check(state.Success, "%s: BDD enumeration is cancelled", h.what())
		h.judgeEnumBDD(b, proj)
	case 2: // the same on the conjunction as a formula
		if len(h.acts) > 0 {
			var gs []f.Formula
			for _, a := range h.acts {
				gs = append(gs, a.g)
			}
			g := w.F.And(gs...)
			var ms []*model.Model
			if r.Bool() {
				ms = enum.OnFormula(w.F, g, w.VarsOf(proj), w.VarsOf(add)...)
			} else {
				ms, _ = enum.OnFormulaWithConfig(w.F, g, w.VarsOf(proj), cfg, w.VarsOf(add)...)
			}
			var ls [][]f.Literal
			for _, m := range ms {
				ls = append(ls, m.Literals)
			}
			h.judgeModels(ls, proj, add, true, h.what()+" as one formula")
			if r.Bool() {
				h.judgeEnumBDD(enum.ToBddOnFormula(w.F, g, w.VarsOf(proj)), proj)
			} else {
				b, _ := enum.ToBddOnFormulaWithConfig(w.F, g, w.VarsOf(proj), cfg)
				h.judgeEnumBDD(b, proj)
			}
		}
	case 3: // cancelled
		hdl := &CancelAt{N: r.Range(1, 40), Sticky: r.Bool()}
		cfg := &iter.Config{Handler: hdl, Strategy: st}
		ms, state := enum.OnSolverWithConfig(h.s, w.VarsOf(proj), cfg, w.VarsOf(add)...)
		h.logf("cancelled at event %d: %v", hdl.N, state.Success)
		var ls [][]f.Literal
		for _, m := range ms {
			ls = append(ls, m.Literals)
		}
		c.Check(state.Success == (hdl.Fired == 0), "%s: enumeration cancelled %d times reports %v", h.what(), hdl.Fired, state)
		h.judgeModels(ls, proj, add, state.Success, h.what()+" cancelled")
		if !state.Success {
			c.Obs("cancelled enumerations", 1)
		}
	}
}

func (h *SH) judgeEnumBDD(b *bdd.BDD, proj []int) {
	c, w := h.c, h.w
	t := h.tt()
	for v := 0; v < w.N; v++ {
		in := false
		for _, p := range proj {
			in = in || p == v
		}
		if !in {
			t = t.Exists(v)
		}
	}
	g := b.ToFormula(w.F)
	c.EqTT(w.TTOf(g), t, "%s: BDD of the enumeration over %v", h.what(), proj)
	c.Obs("enumerations as BDD", 1)
}

func runP17(c *Ctx) {
	r := c.R
	sc := randSatConfig(r)
	nv := r.Range(1, 8)
	if r.P(2) { // more models than the bound of the default strategy
		nv = r.Range(9, 11)
		c.Obs("enumerations over 9 to 11 variables", 1)
	}
	h := newSH(c, sc, nv)
	h.pb = r.P(40)
	h.maxAct = 5
	if r.P(50) { // weak constraints have many models
		for i := 0; i < r.Range(1, 3); i++ {
			h.addNode(clausesNode(GenClauses(r, nv, r.Range(1, 3), 1, 4)))
		}
	} else if r.P(90) {
		for i := 0; i < r.Range(1, 2); i++ {
			h.add()
		}
	}
	h.enumDeep()
	for i := 0; i < r.Range(1, 6); i++ {
		switch r.Intn(7) {
		case 0:
			if len(h.acts) < h.maxAct {
				h.add()
			}
		case 1:
			h.save()
		case 2:
			h.load()
		case 3:
			h.call(false)
		default:
			h.enumDeep()
		}
	}
	h.call(false)
	h.readback()
	c.Sample("%s", fmt.Sprint(h.hist))
}

func init() {
	register(&PropDef{ID: "P17", Quick: 70000, Thorough: 600000, Run: runP17, CPU: 300,
		Rule: "enumerations over random projection and additional variable sets with all split strategies inside random solver histories, as model lists, BDDs, on solvers and formulas, limited and cancelled; compared with the projected truth table",
		Need: []string{"enumerations", "enumerations with splits", "models judged", "additional variables judged", "limited enumerations", "enumerations as BDD", "cancelled enumerations", "states loaded"},
	})
}
