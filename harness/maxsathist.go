package main

import (
	"fmt"
	"math"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
)

type mxSoft struct {
	n *Node
	w int
}

type mxState struct {
	st         *maxsat.SolverState
	hard, soft int
	id         int
}

// MX drives one MaxSAT solver and knows its problem.
type MX struct {
	c      *Ctx
	w      *World
	s      *maxsat.Solver
	alg    maxsat.Algorithm
	cfg    *maxsat.Config
	nv     int
	hard   []*Node
	soft   []mxSoft
	states []mxState
	nextID int
	trace  []string
	maxW   int
	pool   []*Node // generated formulas, also of discarded states
	solved int
}

var mxAlgs = []maxsat.Algorithm{maxsat.AlgWBO, maxsat.AlgIncWBO, maxsat.AlgLinearSU, maxsat.AlgLinearUS, maxsat.AlgMSU3, maxsat.AlgWMSU3, maxsat.AlgOLL}

func randMaxSatConfig(r *Rng) *maxsat.Config {
	cfg := maxsat.DefaultConfig()
	cfg.CNFMethod = pick(r, sat.CNFFactory, sat.CNFPG, sat.CNFFullPG)
	cfg.IncrementalStrategy = pick(r, maxsat.IncNone, maxsat.IncIterative)
	cfg.WeightStrategy = pick(r, maxsat.WeightNone, maxsat.WeightNormal, maxsat.WeightDiversify)
	cfg.Symmetry = r.Bool()
	cfg.Limit = pick(r, math.MaxInt, math.MaxInt, 0, 1, 2, 5)
	cfg.BMO = r.Bool()
	return cfg
}

func newMX(c *Ctx, w *World, alg maxsat.Algorithm) *MX {
	r := c.R
	h := &MX{c: c, w: w, alg: alg, nv: w.N}
	cfg := randMaxSatConfig(r)
	h.cfg = cfg
	fac := w.F
	mk := map[maxsat.Algorithm]func(f.Factory, ...*maxsat.Config) *maxsat.Solver{
		maxsat.AlgWBO: maxsat.WBO, maxsat.AlgIncWBO: maxsat.IncWBO, maxsat.AlgLinearSU: maxsat.LinearSU, maxsat.AlgLinearUS: maxsat.LinearUS,
		maxsat.AlgMSU3: maxsat.MSU3, maxsat.AlgWMSU3: maxsat.WMSU3, maxsat.AlgOLL: maxsat.OLL}[alg]
	switch r.Intn(6) {
	case 0:
		h.s = mk(fac)
		h.cfg = nil
	case 1:
		fac.PutConfiguration(cfg)
		h.s = mk(fac)
	default:
		h.s = mk(fac, cfg)
	}
	h.logf("new %s", h.what())
	return h
}

func (h *MX) what() string {
	if h.cfg == nil {
		return h.alg.String() + " default"
	}
	return fmt.Sprintf("%s %+v", h.alg, *h.cfg)
}

func (h *MX) logf(format string, a ...any) {
	h.c.Logf("%s: "+format, append([]any{h.alg}, a...)...)
}

func (h *MX) weighted() bool {
	for _, s := range h.soft {
		if s.w > 1 {
			return true
		}
	}
	return false
}

// supported says whether the present problem is one the algorithm is for.
func (h *MX) supported() bool {
	if h.weighted() {
		return h.s.SupportsWeighted()
	}
	return h.s.SupportsUnweighted()
}

func (h *MX) addHard(n *Node) {
	g := h.w.Build(n)
	h.logf("hard %s", cut(g.Sprint(h.w.F), 300))
	h.s.AddHardFormula(g)
	h.hard = append(h.hard, n)
}

func (h *MX) addSoft(n *Node, weight int) {
	g := h.w.Build(n)
	h.logf("soft %d %s", weight, cut(g.Sprint(h.w.F), 300))
	err := h.s.AddSoftFormula(g, weight)
	if weight < 1 {
		h.c.Check(err != nil, "%s: soft formula of weight %d accepted", h.what(), weight)
		h.c.Obs("rejected weights", 1)
		return
	}
	h.c.Check(err == nil, "%s: soft formula of weight %d rejected: %v", h.what(), weight, err)
	h.soft = append(h.soft, mxSoft{n, weight})
}

// strata returns conflicting soft formulas in levels whose weights are close
// to the total weight of the lower levels (Boolean multilevel optimisation is
// applicable exactly if they are not below).
func (h *MX) strata(k int) []mxSoft {
	r := h.c.R
	var out []mxSoft
	for ; k > 0; k-- {
		total := 0
		a, b := r.Intn(h.nv), r.Intn(h.nv)
		for l := r.Range(2, 3); l > 0; l-- {
			x := r.Range(1, 3)
			if total > 0 {
				x = max(1, total+r.Range(-2, 1))
			}
			for i := r.Range(1, 4); i > 0; i-- {
				n := nLit(pick(r, a, a, b), l%2 == 0)
				switch r.Intn(5) {
				case 0:
					n = nLit(a, r.Bool())
				case 1:
					n = nOr(n, nLit(r.Intn(h.nv), r.Bool()))
				}
				out = append(out, mxSoft{n, x})
				total += x
			}
		}
	}
	return out
}

// overlap adds soft literals over all variables and hard constraints which
// admit only some of them, so that the cores of the search overlap.
func (h *MX) overlap() {
	r := h.c.R
	pos := r.Bool()
	x := 1
	if h.s.SupportsWeighted() && h.maxW > 1 && r.P(40) {
		x = r.Range(2, 4)
	}
	vs := r.Perm(h.nv)
	for _, v := range vs {
		h.addSoft(nLit(v, pos != r.P(15)), x)
	}
	var ls []*Node
	for i := r.Range(h.nv/2, h.nv*2); i > 0 && h.nv > 1; i-- {
		a, b := r.Intn(h.nv), r.Intn(h.nv)
		if a == b {
			continue
		}
		c := nOr(nLit(a, !pos), nLit(b, !pos))
		if r.P(25) {
			c = nOr(nLit(a, !pos), nLit(b, !pos), nLit(r.Intn(h.nv), r.Bool()))
		}
		ls = append(ls, c)
	}
	if len(ls) > 0 {
		if n := nAnd(ls...); len(n.TT(h.nv).Models()) > 0 {
			h.addHard(n)
		}
	}
	h.c.Obs("problems with overlapping cores", 1)
}

func (h *MX) addStrata(k int) {
	for _, s := range h.strata(k) {
		h.addSoft(s.n, s.w)
	}
	h.c.Obs("stratified problems", 1)
}

func (h *MX) save() {
	h.nextID++
	h.states = append(h.states, mxState{h.s.SaveState(), len(h.hard), len(h.soft), h.nextID})
	h.logf("save %d", h.nextID)
}

func (h *MX) load() bool {
	if len(h.states) == 0 {
		return false
	}
	i := h.c.R.Intn(len(h.states))
	st := h.states[i]
	h.logf("load %d", st.id)
	err := h.s.LoadState(st.st)
	h.c.Check(err == nil, "%s: loading a valid state fails: %v", h.what(), err)
	dead := h.states[i+1:]
	h.states = append([]mxState{}, h.states[:i+1]...)
	h.hard, h.soft = append([]*Node{}, h.hard[:st.hard]...), append([]mxSoft{}, h.soft[:st.soft]...)
	h.c.Obs("states loaded", 1)
	for _, d := range dead {
		if h.c.R.P(30) {
			err := h.s.LoadState(d.st)
			h.c.Check(err != nil, "%s: state %d loaded although it was discarded by loading state %d", h.what(), d.id, st.id)
			h.c.Obs("invalid states rejected", 1)
		}
	}
	return true
}

// optimum by enumeration; ok=false: unsatisfiable.
func (h *MX) optimum() (opt int, ok bool, cost func(a uint64) int, hard TT) {
	hard = TTConst(h.nv, true)
	for _, n := range h.hard {
		hard = hard.And(n.TT(h.nv))
	}
	tts := make([]TT, len(h.soft))
	for i, s := range h.soft {
		tts[i] = s.n.TT(h.nv)
	}
	cost = func(a uint64) int {
		k := 0
		for i, s := range h.soft {
			if !tts[i].Get(a) {
				k += s.w
			}
		}
		return k
	}
	opt = math.MaxInt
	for _, a := range hard.Models() {
		opt = min(opt, cost(a))
		ok = true
	}
	return
}

// mxMonitor observes the events of one search.
type mxMonitor struct {
	CancelAt
	lbs, ubs []int
	first    string
	last     string
}

func (m *mxMonitor) ShouldResume(e event.Event) bool {
	switch x := e.(type) {
	case maxsat.EventMaxSatNewLowerBound:
		m.lbs = append(m.lbs, x.Bound)
	case maxsat.EventMaxSatNewUpperBound:
		m.ubs = append(m.ubs, x.Bound)
	}
	if m.first == "" {
		m.first = e.EventType()
	}
	m.last = e.EventType()
	return m.CancelAt.ShouldResume(e)
}

func (h *MX) judgeBounds(m *mxMonitor, opt int, ok bool) {
	if !ok {
		return
	}
	for i, b := range m.lbs {
		h.c.Check(b <= opt, "%s: reported lower bound %d, optimum %d", h.what(), b, opt)
		h.c.Check(i == 0 || b >= m.lbs[i-1], "%s: lower bounds decrease %v", h.what(), m.lbs)
	}
	for i, b := range m.ubs {
		h.c.Check(b >= opt, "%s: reported upper bound %d, optimum %d", h.what(), b, opt)
		h.c.Check(i == 0 || b <= m.ubs[i-1], "%s: upper bounds increase %v", h.what(), m.ubs)
	}
	h.c.Obs("bounds judged", len(m.lbs)+len(m.ubs))
}

// solve compares the result with the enumerated optimum.
func (h *MX) solve() {
	c, r := h.c, h.c.R
	if !h.supported() {
		h.c.Obs("skipped: problem sort unsupported by the algorithm", 1)
		return
	}
	opt, ok, cost, _ := h.optimum()
	var res maxsat.Result
	if r.Bool() {
		h.logf("solve")
		res = h.s.Solve()
	} else {
		h.logf("solve with monitor")
		m := &mxMonitor{}
		var st = struct{ ok bool }{}
		x, state := h.s.SolveWithHandler(m)
		st.ok = state.Success
		c.Check(st.ok, "%s: not successful without cancellation", h.what())
		h.judgeBounds(m, opt, ok)
		res = x
	}
	h.judge(res, opt, ok, cost)
	h.solved++
	if r.P(25) {
		res := h.s.Solve()
		h.judge(res, opt, ok, cost)
	}
}

func (h *MX) judge(res maxsat.Result, opt int, ok bool, cost func(a uint64) int) {
	c := h.c
	c.Check(res.Satisfiable == ok, "%s: satisfiable %v, expected %v", h.what(), res.Satisfiable, ok)
	if !ok {
		c.Check(res.Model == nil, "%s: model of an unsatisfiable problem", h.what())
		c.Obs("unsatisfiable problems", 1)
		return
	}
	c.Check(res.Optimum == opt, "%s: optimum %d, expected %d", h.what(), res.Optimum, opt)
	c.Check(res.Model != nil, "%s: no model", h.what())
	h.judgeModel(res.Model, opt, cost)
	c.Obs("optima judged", 1)
	if opt > 0 {
		c.Obs("positive optima", 1)
	}
}

func (h *MX) judgeModel(m *model.Model, opt int, cost func(a uint64) int) {
	c, w := h.c, h.w
	var mask, val uint64
	for _, l := range m.Literals {
		p := w.PLit(l)
		if p.V >= w.N {
			continue
		}
		c.Check(mask>>uint(p.V)&1 == 0, "%s: model assigns %s twice", h.what(), w.name[p.V])
		mask |= 1 << uint(p.V)
		if p.Pos {
			val |= 1 << uint(p.V)
		}
	}
	// variables the model leaves open do not matter
	var open []int
	for v := 0; v < h.nv; v++ {
		if mask>>uint(v)&1 == 0 {
			open = append(open, v)
		}
	}
	for k := 0; k < 1<<uint(len(open)) && k < 64; k++ {
		a := val
		for i, v := range open {
			if k>>uint(i)&1 == 1 {
				a |= 1 << uint(v)
			}
		}
		for i, n := range h.hard {
			c.Check(n.Eval(a), "%s: model %b violates hard formula %d (%s)", h.what(), a, i, cut(n.String(), 200))
		}
		c.Check(cost(a) == opt, "%s: model %b has cost %d, optimum %d", h.what(), a, cost(a), opt)
	}
	c.Obs("models judged", 1)
}

// cancelled runs a search that is cancelled somewhere.
func (h *MX) cancelled() {
	c, r := h.c, h.c.R
	if !h.supported() {
		return
	}
	opt, ok, cost, _ := h.optimum()
	m := &mxMonitor{CancelAt: CancelAt{N: pick(r, 1, 1, 2, 3, 4, 5, 7, 10, r.Range(5, 60)), Sticky: r.P(70)}}
	h.logf("solve cancelled at event %d sticky %v", m.N, m.Sticky)
	res, st := h.s.SolveWithHandler(m)
	if m.Fired == 0 {
		c.Check(st.Success, "%s: not successful without cancellation", h.what())
		h.judge(res, opt, ok, cost)
		return
	}
	c.Check(!st.Success, "%s: cancelled at %s but reported as success", h.what(), m.Cause.EventType())
	c.Check(res == (maxsat.Result{}), "%s: cancelled search returns %+v", h.what(), res)
	c.Check(eventEq(st.CancelCause, m.Cause), "%s: cancel cause %v, cancelled at %v", h.what(), st.CancelCause, m.Cause)
	h.judgeBounds(m, opt, ok)
	c.Obs("cancelled searches", 1)
	c.Obs("cancelled at: "+m.Cause.EventType(), 1)
	if r.P(60) {
		h.solve()
	}
}

// share returns a formula built on an earlier one (or a part of it), so that
// definitions of sub-formulas are shared between hard and soft formulas and
// across loaded states.
func (h *MX) share() *Node {
	r := h.c.R
	if len(h.pool) == 0 || !r.P(14) {
		return nil
	}
	h.c.Obs("formulas sharing parts with earlier ones", 1)
	n := h.pool[r.Intn(len(h.pool))]
	if r.P(50) && len(n.Ops) > 0 {
		n = n.Ops[r.Intn(len(n.Ops))]
	}
	x := nLit(r.Intn(h.nv), r.Bool())
	switch r.Intn(6) {
	case 0, 1:
		return n
	case 2:
		return nOr(x, n)
	case 3:
		return nOr(x, nNot(n))
	case 4:
		return nOr(x, nNot(n), nLit(r.Intn(h.nv), r.Bool()))
	default:
		return &Node{K: KEquiv, Ops: []*Node{x, n}}
	}
}

// genHard mostly avoids formulas which make the problem unsatisfiable.
func (h *MX) genHard() *Node {
	have := TTConst(h.nv, true)
	for _, n := range h.hard {
		have = have.And(n.TT(h.nv))
	}
	for i := 0; ; i++ {
		n := h.share()
		if n == nil {
			n = h.freshHard()
			h.pool = append(h.pool, n)
		}
		if i == 3 || len(have.And(n.TT(h.nv)).Models()) > 0 || h.c.R.P(8) {
			return n
		}
	}
}

func (h *MX) freshHard() *Node {
	r := h.c.R
	switch x := r.Intn(20); {
	case x < 9:
		return clausesNode(GenClauses(r, h.nv, r.Range(1, 3), 1, 3))
	case x < 10:
		return nLit(r.Intn(h.nv), r.Bool())
	case x < 11:
		return pick(r, nTrueConst(), &Node{K: KFalse})
	case x < 14:
		g := stdCfg(r, h.nv)
		g.CC, g.PB, g.MaxCC, g.Depth = 3, 2, 4, r.Range(0, 1)
		return Gen(r, g)
	default:
		g := stdCfg(r, h.nv)
		g.Depth = r.Range(0, 3)
		return Gen(r, g)
	}
}

func (h *MX) genSoft() (*Node, int) {
	r := h.c.R
	var n *Node
	switch x := r.Intn(20); {
	case x < 8:
		n = nLit(r.Intn(h.nv), r.Bool())
	case x < 14:
		n = clausesNode(GenClauses(r, h.nv, 1, 1, 3))
	case x < 15:
		n = pick(r, nTrueConst(), &Node{K: KFalse})
	case x < 16:
		g := stdCfg(r, h.nv)
		g.CC, g.PB, g.MaxCC, g.Depth = 3, 2, 4, 0
		n = Gen(r, g)
	default:
		g := stdCfg(r, h.nv)
		g.Depth = r.Range(0, 2)
		n = Gen(r, g)
	}
	if m := h.share(); m != nil {
		n = m
	} else {
		h.pool = append(h.pool, n)
	}
	w := 1
	if h.s.SupportsWeighted() && h.maxW > 1 {
		switch r.Intn(4) {
		case 0:
			w = r.Range(1, h.maxW)
		case 1:
			w = pick(r, 1, 2, 4, 8)
		case 2: // widely spread: Boolean multilevel optimisation
			w = pick(r, 1, 6, 40)
		default:
			w = r.Range(1, min(h.maxW, 4))
		}
		w = min(w, h.maxW)
	}
	return n, w
}

func runP22(c *Ctx) {
	r := c.R
	if c.Idx%12 == 0 {
		p22Big(c)
		return
	}
	nv := r.Range(1, 7)
	w := NewWorld(r, nv, r.P(15))
	w.F.PutConfiguration(randEncConfig(r))
	if r.P(30) {
		cc := normalform.DefaultCNFConfig()
		cc.Algorithm = pick(r, normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced)
		cc.AtomBoundary = pick(r, 0, 1, 3, 12)
		w.F.PutConfiguration(cc)
	}
	alg := mxAlgs[r.Intn(len(mxAlgs))]
	h := newMX(c, w, alg)
	h.maxW = pick(r, 1, 4, 12, 60)
	if alg == maxsat.AlgWMSU3 {
		h.maxW = pick(r, 4, 12, 60)
	}
	if alg != maxsat.AlgWMSU3 && alg != maxsat.AlgLinearSU && h.maxW == 60 && r.Bool() {
		h.maxW = 1 << 40
	}
	for i := r.Intn(6); i > 0; i-- {
		h.addHard(h.genHard())
	}
	softs := r.Range(0, 9)
	if alg == maxsat.AlgWMSU3 && r.P(70) || r.P(30) {
		softs = r.Range(0, 2)
		h.addStrata(1)
	}
	if r.P(15) && alg != maxsat.AlgWMSU3 {
		h.overlap()
		softs = r.Intn(2)
	}
	for i := softs; i > 0; i-- {
		n, x := h.genSoft()
		if h.maxW == 1<<40 && x == 60 {
			x = r.Range(1, 1<<20) << 18
		}
		h.addSoft(n, x)
		if r.P(10) { // the same soft formula again
			h.addSoft(n, x)
		}
	}
	if r.P(10) {
		h.addSoft(nLit(0, true), pick(r, 0, -1, -5))
	}
	if alg == maxsat.AlgWMSU3 && !h.weighted() {
		n, _ := h.genSoft()
		h.addSoft(n, r.Range(2, 5))
	}
	h.solve()
	opt, ok, _, _ := h.optimum()
	if ok && opt > 0 {
		c.NT(fmt.Sprint(h.c.Idx))
	}
	c.Obs("problems for "+alg.String(), 1)
	c.Sample("%s: %d hard, %d soft, optimum %d %v", h.what(), len(h.hard), len(h.soft), opt, ok)
}

// p22Big solves larger problems with all algorithms; the optimum is certified by the reference solver.
func p22Big(c *Ctx) {
	r := c.R
	nv := r.Range(8, 24)
	w := NewWorld(r, nv, false)
	unit := r.P(40)
	var hard []*Node
	var soft []mxSoft
	for i := r.Range(0, 3*nv); i > 0; i-- {
		hard = append(hard, clausesNode(GenClauses(r, nv, 1, 2, 3)))
	}
	if r.P(30) {
		g := GenCfg{NV: nv, MaxCC: 6}
		hard = append(hard, genCC(r, g))
	}
	maxW := pick(r, 3, 8, 30)
	spread := r.P(30)
	for i := r.Range(3, 24); i > 0; i-- {
		x := 1
		if !unit {
			x = r.Range(1, maxW)
			if spread {
				x = pick(r, 1, 8, 70)
			}
		}
		n := nLit(r.Intn(nv), r.Bool())
		if r.P(60) {
			n = clausesNode(GenClauses(r, nv, 1, 1, 3))
		}
		soft = append(soft, mxSoft{n, x})
	}
	if !unit && r.P(30) {
		h := &MX{c: c, w: w, nv: nv}
		soft = append(soft[:min(len(soft), 4)], h.strata(r.Range(1, 3))...)
	}
	if r.P(30) {
		// overlapping cores: literals of one sign of (nearly) all variables against small constraints of the other sign
		hard, soft = nil, nil
		nv = min(nv, r.Range(5, 11))
		x := pick(r, 1, 1, 2, 3)
		unit = x == 1
		for v := 0; v < nv; v++ {
			soft = append(soft, mxSoft{nLit(v, !r.P(6)), x})
		}
		for i := r.Range(nv, 3*nv); i > 0; i-- {
			p := r.Perm(nv)
			ls := []*Node{nLit(p[0], false), nLit(p[1], false)}
			if r.P(30) {
				ls = append(ls, nLit(p[2], r.P(20)))
			}
			hard = append(hard, nOr(ls...))
		}
		c.Obs("large problems with overlapping cores", 1)
	}
	opt, isSat := -1, true
	for _, alg := range mxAlgs {
		h := newMX(c, w, alg)
		weighted := false
		for _, s := range soft {
			weighted = weighted || s.w > 1
		}
		if weighted && !h.s.SupportsWeighted() || !weighted && !h.s.SupportsUnweighted() {
			continue
		}
		for _, n := range hard {
			h.addHard(n)
		}
		for _, s := range soft {
			h.addSoft(s.n, s.w)
		}
		m := &mxMonitor{}
		res, st := h.s.SolveWithHandler(m)
		c.Check(st.Success, "%s: not successful", h.what())
		if opt == -1 && isSat {
			opt, isSat = res.Optimum, res.Satisfiable
			h.certify(res)
		}
		c.Check(res.Satisfiable == isSat, "%s: satisfiable %v, expected %v", h.what(), res.Satisfiable, isSat)
		if !isSat {
			continue
		}
		c.Check(res.Optimum == opt, "%s: optimum %d, other algorithm %d", h.what(), res.Optimum, opt)
		h.judgeBounds(m, opt, true)
		a := make([]bool, nv)
		for _, l := range res.Model.Literals {
			if p := w.PLit(l); p.V < nv {
				a[p.V] = p.Pos
			}
		}
		cost := 0
		for i, n := range hard {
			c.Check(evalBig(n, a), "%s: model violates hard formula %d %s", h.what(), i, n)
		}
		for _, s := range soft {
			if !evalBig(s.n, a) {
				cost += s.w
			}
		}
		c.Check(cost == opt, "%s: model has cost %d, optimum %d", h.what(), cost, opt)
		c.Obs("large problems solved", 1)
	}
	c.NT(fmt.Sprint(c.Idx, opt))
}

// certify judges a result of a larger problem by enumeration or by the reference solver.
func (h *MX) certify(res maxsat.Result) {
	c := h.c
	if h.nv <= 15 {
		opt, ok, _, _ := h.optimum()
		c.Check(ok == res.Satisfiable, "%s: satisfiable %v, expected %v", h.what(), res.Satisfiable, ok)
		c.Check(!ok || res.Optimum == opt, "%s: optimum %d, expected %d", h.what(), res.Optimum, opt)
		c.Obs("optima certified", 1)
		return
	}
	e := NewRefEnc()
	e.S.Budget = 2000
	for _, n := range h.hard {
		e.Assert(n)
	}
	ok, done := e.S.Solve()
	c.Check(!done || ok == res.Satisfiable, "%s: satisfiable %v, reference %v", h.what(), res.Satisfiable, ok)
	if !res.Satisfiable || res.Optimum <= 0 {
		return
	}
	pb := &Node{K: KPBC, Cmp: LE, Rhs: res.Optimum - 1}
	next := h.nv
	for _, s := range h.soft {
		e.Assert(nOr(s.n, nLit(next, true)))
		pb.Lits = append(pb.Lits, PLit{next, true})
		pb.Coefs = append(pb.Coefs, s.w)
		next++
	}
	e.Assert(pb)
	ok, done = e.S.Solve()
	if !done {
		c.Obs("optima the reference solver could not certify", 1)
		return
	}
	c.Check(!ok, "%s: optimum %d, but the reference solver finds a cheaper solution", h.what(), res.Optimum)
	c.Obs("optima certified", 1)
}

func runP23(c *Ctx) {
	r := c.R
	nv := r.Range(1, 6)
	w := NewWorld(r, nv, r.P(15))
	w.F.PutConfiguration(randEncConfig(r))
	k := 1
	if r.P(25) {
		k = 2 // two solvers on one factory
	}
	var hs []*MX
	for i := 0; i < k; i++ {
		h := newMX(c, w, mxAlgs[r.Intn(len(mxAlgs))])
		h.maxW = pick(r, 1, 4, 12, 40)
		if h.alg == maxsat.AlgWMSU3 {
			h.maxW = pick(r, 4, 12, 40)
			h.addSoft(nLit(r.Intn(nv), r.Bool()), 2)
		}
		hs = append(hs, h)
	}
	steps := r.Range(5, 22)
	if c.Thorough {
		steps = r.Range(5, 40)
	}
	for i := 0; i < steps; i++ {
		h := hs[r.Intn(k)]
		if !c.Thorough && len(h.soft) > 10 && !h.load() {
			continue
		}
		switch x := r.Intn(20); {
		case x < 3:
			h.addHard(h.genHard())
		case x < 8:
			if r.P(10) && len(h.soft) < 5 {
				h.addStrata(1)
				break
			}
			n, w := h.genSoft()
			h.addSoft(n, w)
		case x < 13:
			h.solve()
		case x < 16:
			h.cancelled()
		case x < 18:
			h.save()
		default:
			h.load()
		}
	}
	for _, h := range hs {
		h.solve()
		if h.solved > 1 {
			c.NT(fmt.Sprint(c.Idx))
			c.Obs("histories with several searches", 1)
		}
	}
	c.Sample("%s: %d steps", hs[0].what(), steps)
}

func init() {
	register(&PropDef{ID: "P22", Quick: 60000, Thorough: 900000, Run: runP22,
		Rule: "one case = a random (partial, weighted) MaxSAT problem with arbitrary hard and soft formulas solved by a random algorithm with random configuration and compared with exhaustive enumeration, or a larger problem solved by all algorithms with the optimum certified by the reference solver; lower and upper bound events are monitored; non-trivial = problems with positive optimum",
		Need: []string{"optima judged", "models judged", "positive optima", "unsatisfiable problems", "bounds judged", "optima certified", "rejected weights", "stratified problems", "problems with overlapping cores"}})
	register(&PropDef{ID: "P23", Quick: 40000, Thorough: 600000, Run: runP23,
		Rule: "one case = a random history of adding hard and soft formulas, searches, cancelled searches, saving and loading states on one or two MaxSAT solvers sharing a factory; every search is compared with exhaustive enumeration of the current problem; non-trivial = histories with several searches",
		Need: []string{"optima judged", "cancelled searches", "states loaded", "invalid states rejected", "histories with several searches", "cancelled at: Max-SAT Call Finished"}})
	mk := func(alg func(f.Factory, ...*maxsat.Config) *maxsat.Solver, cfg *maxsat.Config, soft ...int) (*maxsat.Solver, f.Factory) {
		fac := f.NewFactory()
		s := alg(fac, cfg)
		for i, w := range soft {
			_ = s.AddSoftFormula(fac.Variable(fmt.Sprintf("s%d", i)), w)
		}
		return s, fac
	}
	probe("maxsat-false-clause", "P22", func(c *Ctx) {
		for _, m := range []sat.CNFMethod{sat.CNFFactory, sat.CNFPG} {
			cfg := maxsat.DefaultConfig()
			cfg.CNFMethod = m
			s, fac := mk(maxsat.OLL, cfg, 1)
			s.AddHardFormula(fac.Falsum())
			c.Check(!s.Solve().Satisfiable, "hard formula $false is satisfiable")
			s, fac = mk(maxsat.OLL, cfg, 1)
			_ = s.AddSoftFormula(fac.Falsum(), 3)
			r := s.Solve()
			c.Check(r.Satisfiable && r.Optimum == 3, "soft formula $false: %+v", r)
		}
	})
	probe("maxsat-single-literal-bound", "P22", func(c *Ctx) {
		for k := 0; k < 400; k++ {
			w := NewWorldPlain(4, false)
			h := newMX(c, w, pick(c.R, maxsat.AlgWMSU3, maxsat.AlgLinearSU))
			h.maxW = 12
			h.addHard(clausesNode(GenClauses(c.R, 4, 3, 1, 3)))
			for i := 0; i < 5; i++ {
				n, x := h.genSoft()
				h.addSoft(n, x+1)
			}
			h.solve()
		}
	})
	probe("wmsu3-none-bmo", "P22", func(c *Ctx) {
		cfg := maxsat.DefaultConfig()
		cfg.BMO = true
		s, fac := mk(maxsat.WMSU3, cfg, 6, 2, 1)
		s.AddHardFormula(fac.Clause(fac.Lit("s0", false), fac.Lit("s1", false)))
		h := &CancelAt{N: 100000, Sticky: true}
		r, st := s.SolveWithHandler(h)
		c.Check(st.Success && r.Optimum == 2, "WMSU3 on a multilevel problem: success %v %+v", st.Success, r)
	})
	probe("wmsu3-current-weight", "P23", func(c *Ctx) {
		s, fac := mk(maxsat.WMSU3, maxsat.DefaultConfig(), 3, 2)
		s.AddHardFormula(fac.Clause(fac.Lit("s0", false), fac.Lit("s1", false)))
		for i := 0; i < 2; i++ {
			r := s.Solve()
			c.Check(r.Optimum == 2, "optimum %d", r.Optimum)
			s.AddHardFormula(fac.Clause(fac.Lit("x", true)))
		}
	})
	probe("maxsat-cancelled-state", "P23", func(c *Ctx) {
		for _, alg := range []func(f.Factory, ...*maxsat.Config) *maxsat.Solver{maxsat.OLL, maxsat.WBO, maxsat.LinearSU, maxsat.IncWBO} {
			for n := 1; n < 30; n++ {
				s, fac := mk(alg, maxsat.DefaultConfig(), 1, 1, 1, 1)
				for i := 0; i < 4; i++ {
					s.AddHardFormula(fac.Clause(fac.Lit(fmt.Sprintf("s%d", i), false), fac.Lit(fmt.Sprintf("s%d", (i+1)%4), false)))
				}
				h := &CancelAt{N: n, Sticky: true}
				_, st := s.SolveWithHandler(h)
				if st.Success {
					break
				}
				c.Check(eventEq(st.CancelCause, h.Cause), "cancelled at %v, reported %v", h.Cause, st.CancelCause)
				r, st := s.SolveWithHandler(&CancelAt{N: 1 << 30})
				c.Check(st.Success && r.Satisfiable && r.Optimum == 2, "after cancellation at event %d: %+v", n, r)
			}
		}
	})
}
