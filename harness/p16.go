package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// copRes is the outcome of one cancellable run: its state, whether it carries
// a result although cancelled, and judges for a complete and a partial result.
type copRes struct {
	st      handler.State
	full    func()
	partial func()
}

type cop struct {
	name string
	run  func(h handler.Handler) copRes
}

// p16env is what all operations of a case share, so that a cancelled run can
// leave traces for the others.
type p16env struct {
	c     *Ctx
	r     *Rng
	w     *World
	n     *Node
	g     f.Formula
	t     TT
	s     *sat.Solver
	scfg  string
	k     *bdd.Kernel
	props []f.Proposition
	pn    []*Node
	known map[int]bool
}

func (e *p16env) equiv(what string, x f.Formula) func() {
	return func() {
		e.c.EqTT(e.w.TTOf(x), e.t, "%s of %s is %s", what, e.g.Sprint(e.w.F), cut(x.Sprint(e.w.F), 300))
	}
}

func (e *p16env) gone(what string, isNil bool) func() {
	return func() { e.c.Check(isNil, "cancelled %s of %s returns a result", what, e.g.Sprint(e.w.F)) }
}

func (e *p16env) bddTT(b *bdd.BDD) TT { return e.w.TTOf(b.ToFormula(e.w.F)) }

func maskOf(vs []int) (m uint64) {
	for _, v := range vs {
		m |= 1 << uint(v)
	}
	return
}

func (e *p16env) models(what string, ms [][]f.Literal, vs []int, complete bool) {
	c, w := e.c, e.w
	full := maskOf(vs)
	want := map[uint64]bool{}
	for _, a := range e.t.Models() {
		want[a&full] = true
	}
	seen := map[uint64]bool{}
	for _, m := range ms {
		mask, val, err := w.LitsAsg(m)
		c.Check(err == "" && mask == full, "%s of %s: model over the wrong variables (%s)", what, e.g.Sprint(w.F), err)
		c.Check(want[val], "%s of %s: %b is no model", what, e.g.Sprint(w.F), val)
		c.Check(!seen[val], "%s of %s: model %b twice", what, e.g.Sprint(w.F), val)
		seen[val] = true
	}
	if complete {
		c.Check(len(seen) == len(want), "%s of %s: %d of %d models", what, e.g.Sprint(w.F), len(seen), len(want))
	} else {
		c.Check(len(seen) <= len(want), "%s: more models than there are", what)
	}
}

func modelLits(ms []*model.Model) (out [][]f.Literal) {
	for _, m := range ms {
		out = append(out, m.Literals)
	}
	return
}

func (e *p16env) setUnsat(idx []int) bool {
	t := TTConst(e.w.N, true)
	for _, i := range idx {
		t = t.And(e.pn[i].TT(e.w.N))
	}
	return t.IsFalse()
}

func (e *p16env) propIdx(ps []f.Proposition) []int {
	var out []int
	for _, p := range ps {
		k := -1
		for i, q := range e.props {
			if p == q {
				k = i
			}
		}
		e.c.Check(k >= 0, "a proposition which was not given is part of the result")
		out = append(out, k)
	}
	return out
}

func (e *p16env) smallestMUS() int {
	best := -1
	for m := 0; m < 1<<uint(len(e.pn)); m++ {
		var idx []int
		for i := range e.pn {
			if m>>uint(i)&1 == 1 {
				idx = append(idx, i)
			}
		}
		if (best < 0 || len(idx) < best) && e.setUnsat(idx) {
			best = len(idx)
		}
	}
	return best
}

// ops lists the cancellable operations which admit the case's formula.
func (e *p16env) ops() []cop {
	c, r, w, g, t := e.c, e.r, e.w, e.g, e.t
	fac := w.F
	var out []cop
	add := func(name string, run func(h handler.Handler) copRes) { out = append(out, cop{name, run}) }
	vs := e.n.Vars()
	pb := e.n.HasPB()
	formOp := func(name string, fn func(h handler.Handler) (f.Formula, handler.State)) {
		add(name, func(h handler.Handler) copRes {
			x, st := fn(h)
			if !st.Success {
				return copRes{st: st}
			}
			return copRes{st: st, full: e.equiv(name, x)}
		})
	}
	// results of these operations are cached by the factory: each cancelled run
	// needs a factory of its own and is completed there afterwards
	cachedOp := func(name string, fn func(fac f.Factory, g f.Formula, h handler.Handler) (f.Formula, handler.State), form func(n *Node) bool) {
		add(name, func(h handler.Handler) copRes {
			tw := w.Twin()
			tg := tw.Build(e.n)
			judge := func(x f.Formula) {
				c.EqTT(tw.TTOf(x), t, "%s of %s is %s", name, g.Sprint(fac), cut(x.Sprint(tw.F), 300))
				c.Check(form(tw.From(x)), "%s of %s is %s", name, g.Sprint(fac), cut(x.Sprint(tw.F), 300))
			}
			x, st := fn(tw.F, tg, h)
			return copRes{st, func() { judge(x) }, func() {
				x, st := fn(tw.F, tg, handler.NopHandler)
				c.Check(st.Success, "%s of %s not successful without cancellation", name, g.Sprint(fac))
				judge(x)
				c.Obs("complete runs after a cancellation", 1)
			}}
		})
	}
	if !pb {
		if factSize(e.n, true, true) < 300 {
			cachedOp("FactorizedCNF", normalform.FactorizedCNFWithHandler, isCNFN)
		}
		if factSize(e.n, true, false) < 300 {
			cachedOp("FactorizedDNF", normalform.FactorizedDNFWithHandler, isDNFN)
		}
		bddOp := func(name string, fn func(h handler.Handler) (*bdd.BDD, handler.State)) {
			add(name, func(h handler.Handler) copRes {
				b, st := fn(h)
				return copRes{st, func() { c.EqTT(e.bddTT(b), t, "%s of %s", name, g.Sprint(fac)) }, e.gone(name, b == nil)}
			})
		}
		bddOp("BDD", func(h handler.Handler) (*bdd.BDD, handler.State) { return bdd.CompileWithHandler(fac, g, h) })
		ord := w.VarsOf(r.Perm(w.N))
		bddOp("BDD with order", func(h handler.Handler) (*bdd.BDD, handler.State) {
			return bdd.CompileWithVarOrderAndHandler(fac, g, ord, h)
		})
		bddOp("BDD on kernel", func(h handler.Handler) (*bdd.BDD, handler.State) {
			return bdd.CompileWithKernelAndHandler(fac, g, e.k, h)
		})
		cachedOp("BDD-CNF", bdd.CNFWithHandler, isCNFN)
		cachedOp("BDD-DNF", bdd.DNFWithHandler, isDNFN)
		add("DNNF", func(h handler.Handler) copRes {
			d, st := dnnf.CompileWithHandler(fac, g, h)
			return copRes{st, func() {
				c.EqTT(w.ProjTT(d.Formula), t, "DNNF of %s", g.Sprint(fac))
				want := new(big.Int).Lsh(big.NewInt(int64(t.Count())), uint(len(f.Variables(fac, g).Content())))
				want.Rsh(want, uint(w.N))
				c.Check(d.ModelCount().Cmp(want) == 0, "DNNF count of %s is %v, expected %v", g.Sprint(fac), d.ModelCount(), want)
			}, e.gone("DNNF compilation", d == nil)}
		})
		cv := w.Vars()
		add("count", func(h handler.Handler) copRes {
			k, err, st := count.CountWithHandler(fac, cv, h, g)
			c.Check(err == nil, "counting fails with %v", err)
			return copRes{st, func() {
				c.Check(k.Cmp(big.NewInt(int64(t.Count()))) == 0, "count of %s is %v, expected %d", g.Sprint(fac), k, t.Count())
			}, e.gone("count", k == nil)}
		})
		if len(vs) <= 7 {
			for _, mx := range []bool{false, true} {
				for _, cs := range []primeimplicant.CoverSort{primeimplicant.CoverImplicants, primeimplicant.CoverImplicates} {
					name := fmt.Sprintf("prime cover max=%v sort=%d", mx, cs)
					add(name, func(h handler.Handler) copRes {
						fn := primeimplicant.CoverMinWithHandler
						if mx {
							fn = primeimplicant.CoverMaxWithHandler
						}
						p, st := fn(fac, g, cs, h)
						return copRes{st, func() {
							a, b := TTConst(w.N, false), TTConst(w.N, true)
							for _, ls := range p.Implicants {
								a = a.Or(w.TTOf(fac.Minterm(ls...)))
							}
							for _, ls := range p.Implicates {
								b = b.And(w.TTOf(fac.Clause(ls...)))
							}
							c.EqTT(a, t, "%s: implicants of %s", name, g.Sprint(fac))
							c.EqTT(b, t, "%s: implicates of %s", name, g.Sprint(fac))
						}, e.gone(name, p == nil)}
					})
				}
			}
			formOp("QMC", func(h handler.Handler) (f.Formula, handler.State) { return simplification.QMCWithHandler(fac, g, h) })
			cfg := &simplification.Config{RestrictBackbone: r.Bool(), FactorOut: r.Bool(), SimplifyNegations: r.Bool(), UseRatingFunction: r.Bool(), RatingFunction: simplification.DefaultRatingFunction}
			formOp("Advanced", func(h handler.Handler) (f.Formula, handler.State) {
				return simplification.AdvancedWithHandler(fac, g, h, cfg)
			})
		}
		if normalform.IsCNF(fac, g) {
			formOp("CNFSubsumption", func(h handler.Handler) (f.Formula, handler.State) {
				x, err, st := simplification.CNFSubsumptionWithHandler(fac, g, h)
				c.Check(err == nil, "subsumption fails with %v", err)
				return x, st
			})
		}
		if normalform.IsDNF(fac, g) {
			formOp("DNFSubsumption", func(h handler.Handler) (f.Formula, handler.State) {
				x, err, st := simplification.DNFSubsumptionWithHandler(fac, g, h)
				c.Check(err == nil, "subsumption fails with %v", err)
				return x, st
			})
		}
	}
	proj := r.Subset(w.N, 70)
	str, sname := randStrategy(r, w, proj)
	pv := w.VarsOf(proj)
	onSolver := r.Bool()
	add("enumeration "+sname, func(h handler.Handler) copRes {
		cfg := &iter.Config{Handler: h, Strategy: str}
		var ms []*model.Model
		var st handler.State
		if onSolver {
			ms, st = enum.OnSolverWithConfig(e.s, pv, cfg)
		} else {
			ms, st = enum.OnFormulaWithConfig(fac, g, pv, cfg)
		}
		return copRes{st,
			func() { e.models("enumeration "+sname, modelLits(ms), proj, true) },
			func() { e.models("cancelled enumeration "+sname, modelLits(ms), proj, false) }}
	})
	projected := func() int {
		seen := map[uint64]bool{}
		for _, a := range t.Models() {
			seen[a&maskOf(proj)] = true
		}
		return len(seen)
	}
	add("count by enumeration "+sname, func(h handler.Handler) copRes {
		k, st := count.OnSolverWithConfig(e.s, pv, &iter.Config{Handler: h, Strategy: str})
		return copRes{st,
			func() {
				c.Check(k.Cmp(big.NewInt(int64(projected()))) == 0, "projected count of %s is %v, expected %d", g.Sprint(fac), k, projected())
			},
			func() {
				c.Check(k == nil || k.Sign() >= 0 && k.Cmp(big.NewInt(int64(projected()))) <= 0, "cancelled count of %s is %v, of %d", g.Sprint(fac), k, projected())
			}}
	})
	add("enumeration to BDD "+sname, func(h handler.Handler) copRes {
		b, st := enum.ToBddOnSolverWithConfig(e.s, pv, &iter.Config{Handler: h, Strategy: str})
		want := t
		for v := 0; v < w.N; v++ {
			if maskOf(proj)>>uint(v)&1 == 0 {
				want = want.Exists(v)
			}
		}
		return copRes{st,
			func() { c.EqTT(e.bddTT(b), want, "BDD of the models of %s over %v", g.Sprint(fac), proj) },
			func() {
				c.Check(b == nil || e.bddTT(b).Implies(want), "BDD of a cancelled enumeration of %s has wrong models", g.Sprint(fac))
			}}
	})
	if len(vs) <= 6 && !pb {
		formOp("canonical CNF", func(h handler.Handler) (f.Formula, handler.State) { return enum.CanonicalCNFWithHandler(fac, g, h) })
		formOp("canonical DNF", func(h handler.Handler) (f.Formula, handler.State) { return enum.CanonicalDNFWithHandler(fac, g, h) })
	}
	// the shared solver
	add("SAT call", func(h handler.Handler) copRes {
		var asm []PLit
		for _, v := range r.Subset(w.N, 25) {
			asm = append(asm, PLit{v, r.Bool()})
		}
		x := t
		for _, l := range asm {
			v := TTVar(w.N, l.V)
			if !l.Pos {
				v = v.Not()
			}
			x = x.And(v)
		}
		p := sat.Params().Handler(h).Literal(w.Lits(asm)...)
		if r.Bool() {
			p = p.WithModel(w.Vars())
		}
		if r.P(30) {
			p = p.WithUPZeros()
		}
		res := e.s.Call(p)
		return copRes{res.State(), func() {
			c.Check(res.Sat() == !x.IsFalse(), "satisfiable: %v, expected %v for %s under %v", res.Sat(), !x.IsFalse(), g.Sprint(fac), asm)
			c.Check(!res.Canceled(), "complete call says it is cancelled")
			if m := res.Model(); m != nil {
				mask, val, err := w.LitsAsg(m.Literals)
				c.Check(err == "" && mask == 1<<uint(w.N)-1 && x.Get(val), "%b (of %b) is no model of %s", val, mask, g.Sprint(fac))
			}
		}, func() {
			c.Check(res.Canceled() && !res.Sat() && res.Model() == nil && res.UpZeroLits() == nil, "cancelled call carries a result")
		}}
	})
	bbv := r.Subset(w.N, 80)
	kind := pick(r, sat.BBBoth, sat.BBPos, sat.BBNeg)
	add("backbone", func(h handler.Handler) copRes {
		b, st := e.s.ComputeBackboneWithHandler(fac, w.VarsOf(bbv), h, kind)
		return copRes{st, func() {
			judgeBackbone(c, w, b, bbv, kind, !t.IsFalse(), func(l PLit) bool {
				v := TTVar(w.N, l.V)
				if !l.Pos {
					v = v.Not()
				}
				return !t.And(v).IsFalse()
			}, "backbone of "+g.Sprint(fac))
		}, e.gone("backbone computation", b == nil)}
	})
	var opt []PLit
	for _, v := range r.Perm(w.N)[:r.Range(1, w.N)] {
		opt = append(opt, PLit{v, r.Bool()})
	}
	val := func(a uint64) (k int) {
		for _, l := range opt {
			if (a>>uint(l.V)&1 == 1) == l.Pos {
				k++
			}
		}
		return
	}
	for _, mx := range []bool{false, true} {
		add(fmt.Sprintf("optimisation max=%v", mx), func(h handler.Handler) copRes {
			fn := e.s.MinimizeWithHandler
			if mx {
				fn = e.s.MaximizeWithHandler
			}
			m, st := fn(w.Lits(opt), h, w.Vars()...)
			best, any := 0, false
			for _, a := range t.Models() {
				if x := val(a); !any || mx && x > best || !mx && x < best {
					best, any = x, true
				}
			}
			isModel := func() uint64 {
				mask, a, err := w.LitsAsg(m.Literals)
				c.Check(err == "" && mask == 1<<uint(w.N)-1 && t.Get(a), "optimisation max=%v: %b (of %b) is no model of %s", mx, a, mask, g.Sprint(fac))
				return a
			}
			return copRes{st, func() {
				c.Check((m != nil) == any, "optimisation max=%v of %s has a model: %v, expected %v", mx, g.Sprint(fac), m != nil, any)
				if m != nil {
					a := isModel()
					c.Check(val(a) == best, "optimisation max=%v of %s over %v gives %d, optimum %d", mx, g.Sprint(fac), opt, val(a), best)
				}
			}, func() {
				if m != nil {
					isModel()
				}
			}}
		})
	}
	if len(e.props) > 0 {
		all := seqInts(0, len(e.props)-1)
		musOp := func(name string, del bool) {
			add(name, func(h handler.Handler) copRes {
				ps := append([]f.Proposition{}, e.props...)
				fn := mus.ComputeInsertionBasedWithHandler
				if del {
					fn = mus.ComputeDeletionBasedWithHandler
				}
				core, st, err := fn(fac, &ps, h)
				if !st.Success {
					return copRes{st: st, partial: func() {
						c.Check(core == nil && err == nil, "cancelled %s returns %v, %v", name, core, err)
					}}
				}
				return copRes{st: st, full: func() {
					c.Check((err == nil) == e.setUnsat(all), "%s: error %v, unsatisfiable %v", name, err, e.setUnsat(all))
					if err != nil {
						return
					}
					idx := e.propIdx(core.Propositions)
					c.Check(e.setUnsat(idx), "%s: core %v is satisfiable", name, idx)
					for i := range idx {
						rest := append(append([]int{}, idx[:i]...), idx[i+1:]...)
						c.Check(!e.setUnsat(rest), "%s: core %v is not minimal", name, idx)
					}
				}}
			})
		}
		musOp("MUS by insertion", false)
		musOp("MUS by deletion", true)
		if len(e.props) <= 8 {
			add("SMUS", func(h handler.Handler) copRes {
				ps, st := smus.ComputeWithHandler(fac, append([]f.Proposition{}, e.props...), h)
				return copRes{st, func() {
					best := e.smallestMUS()
					c.Check((ps == nil) == (best < 0), "SMUS found: %v, smallest unsatisfiable set %d", ps != nil, best)
					if ps != nil {
						idx := e.propIdx(ps)
						c.Check(e.setUnsat(idx) && len(idx) == best, "SMUS %v, smallest size %d", idx, best)
					}
				}, e.gone("SMUS", ps == nil)}
			})
		}
	}
	return out
}

func (e *p16env) judge(op cop, h *CancelAt, how string) {
	c := e.c
	res := op.run(h)
	if h.Fired == 0 {
		c.Check(res.st.Success, "%s (%s): not successful although never cancelled, cause %v", op.name, how, res.st.CancelCause)
		res.full()
		return
	}
	c.Check(!res.st.Success, "%s (%s): cancelled at event %d (%s) but successful", op.name, how, h.N, h.Cause.EventType())
	c.Check(eventEq(res.st.CancelCause, h.Cause), "%s (%s): cancelled at event %d (%s) but cause is %v", op.name, how, h.N, h.Cause.EventType(), res.st.CancelCause)
	c.Check(h.After <= 1, "%s (%s): %d events after the cancellation at event %d (%s)", op.name, how, h.After, h.N, h.Cause.EventType())
	if res.partial != nil {
		res.partial()
	}
	c.Obs("cancelled at: "+h.Cause.EventType(), 1)
}

// cancelPoints picks the events of a computation with e events to cancel at.
func cancelPoints(r *Rng, e, max int) []int {
	if e <= max {
		return seqInts(1, e)
	}
	in := map[int]bool{}
	for i := 1; i <= max/3; i++ {
		in[i], in[e+1-i] = true, true
	}
	for len(in) < max {
		in[r.Range(1, e)] = true
	}
	return sortedKeys(in)
}

func newP16(c *Ctx) *p16env {
	r := c.R
	nv := r.Range(2, 8)
	clauses := r.P(50)
	if clauses && r.P(50) {
		nv = r.Range(6, 10)
	}
	w := NewWorld(r, nv, r.P(30))
	var n *Node
	if clauses {
		kmin := r.Range(1, 3)
		nc := r.Range(2, nv*5+4)
		if kmin == 3 {
			nc = r.Range(nv*3, nv*5+2)
		}
		n = clausesNode(GenClauses(r, nv, nc, kmin, 3))
		if r.P(12) {
			n = nNot(n)
		}
	} else {
		g := stdCfg(r, nv)
		g.Depth = r.Range(2, 4)
		if r.P(25) {
			g.CC, g.PB, g.MaxCC = 2, 1, 4
		}
		n = Gen(r, g)
	}
	e := &p16env{c: c, r: r, w: w, n: n}
	e.g = w.Build(n)
	e.t = n.TT(nv)
	var cfg *sat.Config
	if r.P(70) {
		cfg = hotSatConfig(r)
	} else {
		cfg = randSatConfig(r)
	}
	e.scfg = cfgName(cfg)
	e.s = sat.NewSolver(w.F, cfg)
	for _, v := range r.Perm(nv) {
		e.s.Add(w.F.Or(w.vars[v].AsFormula(), w.F.Lit("known", true).AsFormula()))
	}
	e.s.Add(w.F.Lit("known", true).AsFormula())
	e.s.Add(e.g)
	e.k = bdd.NewKernelWithOrdering(w.F, w.VarsOf(r.Perm(nv)), pick(r, int32(10), 100, 1000), pick(r, int32(10), 100, 1000))
	// a set of propositions, unsatisfiable in most cases
	k := r.Range(2, 9)
	for i := 0; i < k; i++ {
		var p *Node
		switch {
		case n.K == KAnd && len(n.Ops) > 0 && r.P(60):
			p = pick(r, n.Ops...)
		case r.P(50):
			p = clausesNode(GenClauses(r, min(nv, 4), 1, 1, 2))
		default:
			g := stdCfg(r, min(nv, 4))
			g.Depth = 1
			p = Gen(r, g)
		}
		if p.HasPB() {
			continue
		}
		e.pn = append(e.pn, p)
		e.props = append(e.props, f.NewStandardProposition(w.Build(p)))
	}
	c.Logf("formula %s, solver %s", e.g.Sprint(w.F), e.scfg)
	return e
}

func runP16(c *Ctx) {
	r := c.R
	if r.P(6) {
		p16handlers(c)
		return
	}
	if r.P(10) {
		p16maxsat(c)
		return
	}
	e := newP16(c)
	ops := shuffled(r, e.ops())
	maxPts := 14
	if c.Thorough {
		maxPts = 60
	}
	done := 0
	for _, op := range ops[:min(len(ops), r.Range(2, 4))] {
		cnt := &CancelAt{}
		c.Logf("%s", op.name)
		e.judge(op, cnt, "uncancelled")
		c.Obs("events", cnt.Count)
		if cnt.Count == 0 {
			continue
		}
		for _, n := range cancelPoints(r, cnt.Count, maxPts) {
			h := &CancelAt{N: n, Sticky: r.P(60)}
			c.Logf("%s cancelled at %d of %d, sticky %v", op.name, n, cnt.Count, h.Sticky)
			e.judge(op, h, fmt.Sprintf("%d of %d", n, cnt.Count))
			done++
			if r.P(20) {
				x := op
				if r.P(50) {
					x = pick(r, ops...)
				}
				c.Logf("%s again", x.name)
				e.judge(x, &CancelAt{}, "after a cancelled "+op.name)
				c.Obs("complete runs after a cancellation", 1)
			}
		}
		x := pick(r, ops...)
		e.judge(op, &CancelAt{}, "after cancellations")
		e.judge(x, &CancelAt{}, "after cancellations of "+op.name)
		c.Obs("complete runs after a cancellation", 2)
		c.Obs("operation: "+op.name[:min(len(op.name), 13)], 1)
	}
	c.Obs("cancellation points", done)
	c.NT(fmt.Sprint(len(e.props), ops[0].name, e.t.Count()))
	if done == 0 {
		c.Skip("no events")
	}
}

// p16maxsat cancels a MaxSAT search at its events.
func p16maxsat(c *Ctx) {
	r := c.R
	alg := pick(r, mxAlgs...)
	nv := r.Range(2, 6)
	w := NewWorld(r, nv, false)
	h := newMX(c, w, alg)
	h.maxW = pick(r, 1, 4)
	for i := r.Intn(4); i > 0; i-- {
		h.addHard(h.genHard())
	}
	for i := r.Range(1, 5); i > 0; i-- {
		n, wt := h.genSoft()
		h.addSoft(n, wt)
	}
	if !h.supported() {
		c.Skip("unsupported problem")
	}
	opt, ok, cost, _ := h.optimum()
	done := 0
	for n := 1; n < 40; n++ {
		// a solved problem is not searched again: the state is restored before
		st := h.s.SaveState()
		m := &mxMonitor{CancelAt: CancelAt{N: n, Sticky: r.P(60)}}
		h.logf("solve cancelled at event %d", n)
		res, state := h.s.SolveWithHandler(m)
		if m.Fired == 0 {
			c.Check(state.Success, "%s: not successful without cancellation", h.what())
			h.judge(res, opt, ok, cost)
			break
		}
		c.Check(!state.Success && eventEq(state.CancelCause, m.Cause), "%s: cancelled at event %d (%s): state %v", h.what(), n, m.Cause.EventType(), state)
		c.Check(res == (maxsat.Result{}), "%s: cancelled search returns %+v", h.what(), res)
		c.Check(m.After <= 1, "%s: %d events after the cancellation at %d (%s)", h.what(), m.After, n, m.Cause.EventType())
		c.Obs("cancelled at: "+m.Cause.EventType(), 1)
		done++
		if r.P(30) {
			h.judge(h.s.Solve(), opt, ok, cost)
			c.Obs("complete runs after a cancellation", 1)
			c.Check(h.s.LoadState(st) == nil, "%s: state saved before the cancelled search is invalid", h.what())
		}
	}
	h.judge(h.s.Solve(), opt, ok, cost)
	c.Obs("cancellation points", done)
	c.Obs("operation: MaxSAT", 1)
	c.NT(fmt.Sprint("maxsat", alg, done))
}

// p16handlers judges the handlers of the library itself.
func p16handlers(c *Ctx) {
	e := newP16(c)
	r, w, g, t := c.R, e.w, e.g, e.t
	fac := w.F
	switch x := r.Intn(5); x {
	case 0: // limit of the number of models
		all := seqInts(0, w.N-1)
		limit := r.Range(1, 12)
		for i := 0; i < 2; i++ {
			str, sname := randStrategy(r, w, all)
			ms, st := enum.OnSolverWithConfig(e.s, w.Vars(), &iter.Config{Handler: iter.HandlerWithLimit(limit), Strategy: str})
			c.Logf("limit %d, strategy %s: %d models", limit, sname, len(ms))
			e.models("limited enumeration", modelLits(ms), all, st.Success)
			c.Check(len(ms) <= limit, "%d models with a limit of %d", len(ms), limit)
			if t.Count() < limit && sname == "nosplit" {
				c.Check(st.Success, "limit %d not reached by %d models, but cancelled", limit, t.Count())
			}
			if t.Count() >= limit {
				c.Check(!st.Success, "limit %d of %d models but successful", limit, t.Count())
			}
			if sname == "nosplit" && t.Count() >= limit {
				c.Check(len(ms) == limit, "%d models with a limit of %d, of %d", len(ms), limit, t.Count())
			}
		}
		c.Obs("limited enumerations", 1)
	case 1: // bounds of the factorisation
		if e.n.HasPB() || factSize(e.n, true, true) > 300 {
			c.Skip("too large")
		}
		cnt := &CancelAt{Types: map[string]int{}}
		cw := w.Twin()
		normalform.FactorizedCNFWithHandler(cw.F, cw.Build(e.n), cnt)
		db, cb := pick(r, -1, r.Range(0, 6), r.Range(0, 60)), pick(r, -1, r.Range(0, 6), r.Range(0, 60))
		hd := normalform.NewFactorizationHandler(db, cb)
		for i := 0; i < 2; i++ { // handlers can be used again
			tw := w.Twin()
			gg := tw.Build(e.n)
			y, st := normalform.FactorizedCNFWithHandler(tw.F, gg, hd)
			d, k := cnt.Types[event.DistributionPerformed.EventType()], cnt.Types[event.FactorizationCreatedClause.EventType()]
			want := (db == -1 || d <= db) && (cb == -1 || k <= cb)
			c.Check(st.Success == want, "factorisation with bounds %d/%d and %d/%d events: success %v", db, cb, d, k, st.Success)
			if st.Success {
				c.EqTT(tw.TTOf(y), t, "factorisation of %s", g.Sprint(fac))
			}
		}
		c.Obs("bounded factorisations", 1)
	case 2: // bound of the BDD nodes
		if e.n.HasPB() {
			c.Skip("constraint")
		}
		cnt := &CancelAt{Types: map[string]int{}}
		ord := w.Vars()
		bdd.CompileWithVarOrderAndHandler(fac, g, ord, cnt)
		k := cnt.Types[event.BddNewRefAdded.EventType()]
		b := r.Range(1, k+3)
		y, st := bdd.CompileWithVarOrderAndHandler(fac, g, ord, bdd.HandlerWithNodes(b))
		c.Check(st.Success == (k < b), "BDD compilation with bound %d and %d events: success %v", b, k, st.Success)
		if st.Success {
			c.EqTT(e.bddTT(y), t, "BDD of %s", g.Sprint(fac))
		}
		c.Obs("bounded BDD compilations", 1)
	default: // timeouts: in the past everything is cancelled, in the far future nothing
		past := handler.NewTimeoutWithEnd(time.Now().Add(-time.Second))
		future := handler.NewTimeoutWithDuration(time.Hour)
		for _, op := range shuffled(r, e.ops())[:3] {
			cnt := &CancelAt{}
			op.run(cnt)
			if cnt.Count == 0 {
				continue
			}
			res := op.run(past)
			c.Check(!res.st.Success, "%s is successful although the timeout is over", op.name)
			res = op.run(future)
			c.Check(res.st.Success, "%s is cancelled although the timeout is far", op.name)
			res.full()
			c.Obs("timeouts", 1)
		}
	}
	c.NT(fmt.Sprint("handlers", e.t.Count(), len(e.props)))
}

func init() {
	register(&PropDef{ID: "P16", Quick: 16000, Thorough: 120000, Run: runP16,
		Rule:   "generated formulas, clause sets, solvers, kernels and proposition sets of up to 10 variables; each operation is run once to count the events it delivers and then again with a cancellation at every event (a sample of them when there are many), once or for good",
		Need:   []string{"cancellation points", "complete runs after a cancellation", "cancelled at: SAT Conflict Detected", "limited enumerations", "bounded factorisations", "timeouts"},
		Assume: []string{"a handler may still be told one event after it asked to stop", "models, counts and diagrams returned by a cancelled enumeration or optimisation are partial results and must be sound"}})
}

func init() {
	probe("subsumption-cancel-prompt", "P16", func(c *Ctx) {
		fac := f.NewFactory()
		var cls []f.Formula
		for i := 0; i < 10; i++ {
			cls = append(cls, fac.Or(fac.Variable(fmt.Sprintf("a%d", i)), fac.Variable(fmt.Sprintf("b%d", i))))
		}
		h := &CancelAt{N: 3, Sticky: true}
		_, err, st := simplification.CNFSubsumptionWithHandler(fac, fac.And(cls...), h)
		c.Check(err == nil && !st.Success, "cancelled subsumption reports %v, %v", err, st)
		c.Check(h.After == 0, "subsumption continues for %d events after the cancellation", h.After)
	})
}
