package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// evMon is an online checker of the event traces a handler receives.
type evMon struct {
	CancelAt
	bad       string // first violation
	trace     []string
	open      bool // a SAT call is running
	conflicts int  // ... and has found so many conflicts
	calls     int
	unclosed  int // calls that ended without an event
	started   map[string]int
	enums     int
	unc, com  *big.Int // models found since the last commit, models committed
	dist, cls int
	shannon   int
	refs      int
	lbs, ubs  []int
	fin       int
	onBound   func(*model.Model)
}

func newEvMon() *evMon {
	return &evMon{started: map[string]int{}, unc: new(big.Int), com: new(big.Int)}
}

func (m *evMon) fail(s string, args ...any) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(s, args...) + " in the events " + m.String()
	}
}

// String is the trace with repetitions counted.
func (m *evMon) String() string {
	var b strings.Builder
	for i := 0; i < len(m.trace); {
		j := i
		for j < len(m.trace) && m.trace[j] == m.trace[i] {
			j++
		}
		if j > i+1 {
			fmt.Fprintf(&b, "%dx", j-i)
		}
		b.WriteString(m.trace[i] + "; ")
		i = j
	}
	return cut(b.String(), 1500)
}

func (m *evMon) ShouldResume(e event.Event) bool {
	if e == nil {
		m.fail("nil event")
		return true
	}
	name := e.EventType()
	m.trace = append(m.trace, name)
	if m.fin > 0 {
		m.fail("%s after the end of the MaxSAT call", name)
	}
	if strings.HasSuffix(name, "Started") {
		m.started[name]++
	}
	if m.open && e != event.SatConflictDetected && e != event.SatCallFinished {
		// a call on a solver that is known to be unsatisfiable ends silently
		if m.conflicts > 0 && m.Fired == 0 {
			m.fail("%s inside a running SAT call", name)
		}
		m.open = false
		m.unclosed++
	}
	switch x := e.(type) {
	case iter.EventIteratorFoundModels:
		if m.enums == 0 {
			m.fail("model found outside of an enumeration")
		}
		if x.NumberOfModels <= 0 {
			m.fail("an event of %d models", x.NumberOfModels)
		}
		m.unc.Add(m.unc, big.NewInt(int64(x.NumberOfModels)))
	case sat.EventFoundBetterBound:
		if m.started[event.OptimizationFunctionStarted.EventType()] == 0 {
			m.fail("bound outside of an optimisation")
		}
		if m.onBound != nil {
			m.onBound(x.Model())
		}
	case maxsat.EventMaxSatNewLowerBound:
		m.lbs = append(m.lbs, x.Bound)
	case maxsat.EventMaxSatNewUpperBound:
		m.ubs = append(m.ubs, x.Bound)
	}
	switch e {
	case event.SatCallStarted:
		m.open, m.conflicts = true, 0
		m.calls++
	case event.SatConflictDetected:
		if !m.open {
			m.fail("conflict outside of a SAT call")
		}
		m.conflicts++
	case event.SatCallFinished:
		if !m.open {
			m.fail("end of a SAT call without its start")
		}
		m.open = false
	case event.ModelEnumerationStarted:
		m.enums++
		m.unc.SetInt64(0)
		m.com.SetInt64(0)
	case event.ModelEnumerationCommit:
		if m.enums == 0 {
			m.fail("commit outside of an enumeration")
		}
		m.com.Add(m.com, m.unc)
		m.unc.SetInt64(0)
	case event.ModelEnumerationRollback:
		if m.enums == 0 {
			m.fail("rollback outside of an enumeration")
		}
		m.unc.SetInt64(0)
	case event.DistributionPerformed:
		m.dist++
	case event.FactorizationCreatedClause:
		m.cls++
		if m.cls > m.dist {
			m.fail("%d clauses created by %d distributions", m.cls, m.dist)
		}
	case event.BddNewRefAdded:
		m.refs++
		if m.started[event.BddComputationStarted.EventType()] == 0 {
			m.fail("diagram node before the start of the compilation")
		}
	case event.DnnfShannonExpansion:
		m.shannon++
		if m.started[event.DnnfComputationStarted.EventType()] == 0 {
			m.fail("expansion before the start of the compilation")
		}
	case event.MaxSatCallFinished:
		m.fin++
	}
	if e == event.FactorizationStarted {
		m.dist, m.cls = 0, 0
	}
	return m.CancelAt.ShouldResume(e)
}

// first events of the operations by their name; operations that compute
// nothing (e.g. for atoms) have no events.
var evFirst = []struct {
	op, first string
	once      bool // ... and never again
}{
	{"FactorizedCNF", event.FactorizationStarted.EventType(), true},
	{"FactorizedDNF", event.FactorizationStarted.EventType(), true},
	{"BDD", event.BddComputationStarted.EventType(), false},
	{"prime cover", event.PrimeComputationStarted.EventType(), true},
	{"Advanced", event.AdvancedSimplificationStarted.EventType(), true},
	{"CNFSubsumption", event.SubsumptionStartingUbTreeGeneration.EventType(), false},
	{"DNFSubsumption", event.SubsumptionStartingUbTreeGeneration.EventType(), false},
	{"enumeration", event.ModelEnumerationStarted.EventType(), true},
	{"count by enumeration", event.ModelEnumerationStarted.EventType(), true},
	{"SAT call", event.SatCallStarted.EventType(), true},
	{"backbone", event.BackboneComputationStarted.EventType(), true},
	{"optimisation", event.OptimizationFunctionStarted.EventType(), true},
	{"MUS", event.MusComputationStarted.EventType(), true},
	{"SMUS", event.SmusComputationStarted.EventType(), true},
	{"MaxSAT", event.MaxSATCallStarted.EventType(), true},
}

// judgeTrace checks what can be said when a computation has ended.
func (m *evMon) judgeTrace(c *Ctx, op string, complete bool) {
	c.Check(m.bad == "", "%s: %s", op, m.bad)
	for _, x := range evFirst {
		if strings.HasPrefix(op, x.op) && len(m.trace) > 0 {
			c.Check(m.trace[0] == x.first, "%s: the first event is %s: %s", op, m.trace[0], m)
			if x.once {
				c.Check(m.started[x.first] == 1, "%s: %d times %s: %s", op, m.started[x.first], x.first, m)
			}
			c.Obs("starts judged", 1)
		}
	}
	if complete {
		c.Check(!m.open || m.conflicts == 0, "%s: the last SAT call has no end: %s", op, m)
		c.Check(m.unc.Sign() == 0, "%s: %v found models are neither committed nor rolled back: %s", op, m.unc, m)
	}
	c.Obs("events judged", len(m.trace))
	c.Obs("SAT calls observed", m.calls)
	c.Obs("complete traces", b2i(complete))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runP33(c *Ctx) {
	r := c.R
	switch x := r.Intn(100); {
	case x < 12:
		p33enumeration(c)
	case x < 24:
		p33optimisation(c)
	case x < 36:
		p33maxsat(c)
	case x < 52:
		p33bounded(c)
	case x < 58:
		p33freeVars(c)
	case x < 70:
		p33passive(c)
	default:
		p33generic(c)
	}
}

// p33generic monitors the operations of P16, complete and cancelled ones.
func p33generic(c *Ctx) {
	r := c.R
	e := newP16(c)
	ops := shuffled(r, e.ops())
	for _, op := range ops[:min(len(ops), r.Range(2, 6))] {
		m := newEvMon()
		c.Logf("%s", op.name)
		res := op.run(m)
		c.Check(res.st.Success, "%s: not successful without cancellation", op.name)
		m.judgeTrace(c, op.name, true)
		if len(m.trace) == 0 {
			continue
		}
		c.NT(op.name + m.String())
		if strings.HasPrefix(op.name, "SAT call") {
			c.Check(m.calls == 1, "%s: %d calls: %s", op.name, m.calls, m)
		}
		for i := r.Intn(3); i > 0; i-- {
			x := newEvMon()
			x.N, x.Sticky = r.Range(1, m.Count), r.Bool()
			c.Logf("%s cancelled at %d of %d", op.name, x.N, m.Count)
			op.run(x)
			x.judgeTrace(c, op.name, x.Fired == 0)
		}
	}
}

// p33enumeration: the models of the events are the models of the result.
func p33enumeration(c *Ctx) {
	r := c.R
	e := newP16(c)
	w := e.w
	proj := r.Subset(w.N, 75)
	pv := w.VarsOf(proj)
	extra := 0
	for r.P(25) && extra < 4 { // variables the solver does not know
		pv = append(pv, w.F.Var(fmt.Sprintf("free_%d", extra)))
		extra++
	}
	pv = shuffled(r, pv)
	for i := 0; i < r.Range(1, 3); i++ {
		str, sname := randStrategy(r, w, proj)
		m := newEvMon()
		if i > 0 {
			m.N, m.Sticky = r.Range(1, 40), r.Bool()
		}
		cfg := &iter.Config{Handler: m, Strategy: str}
		var n *big.Int
		var st handler.State
		how := ""
		switch r.Intn(5) {
		case 0:
			how = "models on solver"
			var ms []*model.Model
			ms, st = enum.OnSolverWithConfig(e.s, pv, cfg, w.VarsOf(r.Subset(w.N, 20))...)
			n = big.NewInt(int64(len(ms)))
		case 1:
			how = "models of formula"
			var ms []*model.Model
			ms, st = enum.OnFormulaWithConfig(w.F, e.g, pv, cfg)
			n = big.NewInt(int64(len(ms)))
		case 2:
			how = "count on solver"
			n, st = count.OnSolverWithConfig(e.s, pv, cfg)
		case 3:
			how = "count of formula"
			n, st = count.OnFormulaWithConfig(w.F, e.g, pv, cfg)
		default:
			how = "BDD"
			var b *bdd.BDD
			b, st = enum.ToBddOnSolverWithConfig(e.s, pv, cfg)
			if m.Fired > 0 && b.IsContradiction() {
				n = new(big.Int)
			} else {
				n = b.ModelCount()
				n.Lsh(n, uint(len(pv)))
				n.Rsh(n, uint(len(b.VariableOrder())))
			}
		}
		what := fmt.Sprintf("enumeration (%s) with %s of %s over %v and %d others, cancelled at %d", how, sname, cut(e.g.Sprint(w.F), 200), proj, extra, m.N)
		c.Logf("%s", what)
		c.Check(st.Success == (m.Fired == 0), "%s: state %v", what, st)
		m.judgeTrace(c, "enumeration", st.Success)
		c.Check(m.com.Cmp(n) == 0, "%s: the events tell %v committed models, the result has %v: %s", what, m.com, n, m)
		c.Obs("enumerations balanced", 1)
		if m.started["Model Enumeration Started"] > 0 && n.Sign() > 0 {
			c.NT(what)
		}
		if st.Success && strings.Contains(m.String(), "Rollback") {
			c.Obs("balanced with rollbacks", 1)
		}
		if !st.Success {
			c.Obs("cancelled enumerations balanced", 1)
		}
	}
}

// p33optimisation: reported models are models and become strictly better.
func p33optimisation(c *Ctx) {
	r := c.R
	e := newP16(c)
	w := e.w
	var lits []PLit
	for i := r.Range(1, w.N+2); i > 0; i-- {
		lits = append(lits, PLit{r.Intn(w.N), r.Bool()})
	}
	mx := r.Bool()
	val := func(a uint64) (k int) {
		for _, l := range lits {
			if (a>>uint(l.V)&1 == 1) == l.Pos {
				k++
			}
		}
		if !mx {
			k = -k
		}
		return
	}
	m := newEvMon()
	if r.P(40) {
		m.N, m.Sticky = r.Range(1, 30), r.Bool()
	}
	what := fmt.Sprintf("optimisation max=%v of %v on %s (%s), cancelled at %d", mx, lits, cut(e.g.Sprint(w.F), 300), e.scfg, m.N)
	c.Logf("%s", what)
	var vals []int
	judge := func(x *model.Model) int {
		mask, a, err := w.LitsAsg(x.Literals)
		c.Check(err == "" && mask == 1<<uint(w.N)-1 && e.t.Get(a), "%s: reported model %s is no model (%s)", what, litStr(w, x.Literals), err)
		return val(a)
	}
	m.onBound = func(x *model.Model) {
		c.Check(x != nil, "%s: bound without a model", what)
		vals = append(vals, judge(x))
	}
	fn := e.s.MinimizeWithHandler
	if mx {
		fn = e.s.MaximizeWithHandler
	}
	res, st := fn(w.Lits(lits), m, w.Vars()...)
	m.judgeTrace(c, "optimisation", st.Success)
	for i := 1; i < len(vals); i++ {
		c.Check(vals[i] > vals[i-1], "%s: values of the reported models %v do not become better: %s", what, vals, m)
	}
	if len(vals) > 0 {
		c.Check(res != nil, "%s: no result in spite of reported models", what)
		k := judge(res)
		c.Check(k == vals[len(vals)-1], "%s: the result has value %d, the reported models %v", what, k, vals)
		c.Obs("bounds of optimisations", len(vals))
		c.NT(what)
	}
	if st.Success && len(vals) > 0 {
		for _, a := range e.t.Models() {
			c.Check(val(a) <= vals[len(vals)-1], "%s: reported models end at %v, %b is better", what, vals, a)
		}
	}
	// the final state is the same as without events
	c.Check(e.s.Sat() == !e.t.IsFalse(), "%s: solver changed", what)
}

func p33maxsat(c *Ctx) {
	r := c.R
	alg := pick(r, mxAlgs...)
	w := NewWorld(r, r.Range(2, 8), false)
	h := newMX(c, w, alg)
	h.maxW = pick(r, 1, 4, 20)
	for i := r.Intn(6); i > 0; i-- {
		h.addHard(h.genHard())
	}
	for i := r.Range(1, 9); i > 0; i-- {
		n, wt := h.genSoft()
		h.addSoft(n, wt)
	}
	if !h.supported() {
		c.Skip("unsupported problem")
	}
	opt, ok, cost, _ := h.optimum()
	m := newEvMon()
	cancel := r.P(40)
	if cancel {
		m.N, m.Sticky = r.Range(1, 30), r.Bool()
	}
	h.logf("monitored solve, cancelled at %d", m.N)
	res, st := h.s.SolveWithHandler(m)
	what := h.what()
	c.Check(st.Success == (m.Fired == 0), "%s: state %v", what, st)
	if len(m.trace) > 0 {
		m.judgeTrace(c, "MaxSAT", st.Success)
		c.Check(m.fin == 1 || !st.Success && len(m.trace) == 1, "%s: %d ends of the search: %s", what, m.fin, m)
		c.Check(m.calls > 0 || !st.Success, "%s: no SAT call: %s", what, m)
	}
	if ok {
		for i, b := range m.lbs {
			c.Check(b <= opt && b >= 0 && (i == 0 || b >= m.lbs[i-1]), "%s: lower bounds %v, optimum %d", what, m.lbs, opt)
		}
		for i, b := range m.ubs {
			c.Check(b >= opt && (i == 0 || b <= m.ubs[i-1]), "%s: upper bounds %v, optimum %d", what, m.ubs, opt)
		}
		c.Obs("MaxSAT bounds", len(m.lbs)+len(m.ubs))
	}
	if st.Success {
		h.judge(res, opt, ok, cost)
	}
	c.NT(what + m.String())
}

// p33bounded: handlers with bounds stop exactly at them, for every use.
func p33bounded(c *Ctx) {
	r := c.R
	e := newP16(c)
	w := e.w
	fac := w.F
	var pool []*Node
	pool = append(pool, e.n)
	for i := 0; i < 3; i++ {
		pool = append(pool, Gen(r, stdCfg(r, w.N)))
	}
	switch r.Intn(4) {
	case 0: // factorisations, one handler for many
		db, cb := pick(r, -1, r.Range(0, 6), r.Range(0, 60)), pick(r, -1, r.Range(0, 6), r.Range(0, 60))
		hd := normalform.NewFactorizationHandler(db, cb)
		last := "new"
		for i := 0; i < r.Range(2, 5); i++ {
			n := pick(r, pool...)
			dnf := r.Bool()
			if n.HasPB() || factSize(n, true, !dnf) > 300 {
				continue
			}
			fn := normalform.FactorizedCNFWithHandler
			if dnf {
				fn = normalform.FactorizedDNFWithHandler
			}
			m := newEvMon()
			t1, t2 := w.Twin(), w.Twin()
			fn(t1.F, t1.Build(n), m)
			m.judgeTrace(c, "Factorized", true)
			want := (db == -1 || m.dist <= db) && (cb == -1 || m.cls <= cb)
			g := t2.Build(n)
			y, st := fn(t2.F, g, hd)
			c.Check(st.Success == want, "factorisation %d (DNF %v) of %s with a %s handler: bounds %d/%d, %d distributions and %d clauses, success %v", i, dnf, cut(n.String(), 300), last, db, cb, m.dist, m.cls, st.Success)
			last = "used"
			if st.Success {
				c.EqTT(t2.TTOf(y), n.TT(w.N), "factorisation of %s", n)
			} else {
				last = "cancelled"
			}
			c.Obs("bounded factorisations", 1)
			c.NT(fmt.Sprint(n, db, cb))
		}
	case 1: // BDD nodes
		b := pick(r, r.Range(1, 10), r.Range(1, 40))
		hd := bdd.HandlerWithNodes(b)
		last := "new"
		for i := 0; i < r.Range(2, 5); i++ {
			n := pick(r, pool...)
			if n.HasPB() {
				continue
			}
			m := newEvMon()
			g := w.Build(n)
			bdd.CompileWithVarOrderAndHandler(fac, g, w.Vars(), m)
			m.judgeTrace(c, "BDD", true)
			y, st := bdd.CompileWithVarOrderAndHandler(fac, g, w.Vars(), hd)
			c.Check(st.Success == (m.refs < b), "BDD compilation %d of %s with a %s handler: bound %d and %d nodes, success %v", i, n, last, b, m.refs, st.Success)
			last = "used"
			if st.Success {
				c.EqTT(e.bddTT(y), n.TT(w.N), "BDD of %s", n)
			} else {
				last = "cancelled"
			}
			c.Obs("bounded BDD compilations", 1)
			c.NT(fmt.Sprint(n, b))
		}
	case 2: // advanced CNF: every operand may use the bounds anew
		n := nAnd(pool...)
		for len(pool) < 6 {
			pool = append(pool, Gen(r, stdCfg(r, w.N)))
			n = nAnd(pool...)
		}
		if n.HasPB() || factSize(n, true, true) > 500 {
			c.Skip("too large")
			return
		}
		cfg := &normalform.CNFConfig{Algorithm: normalform.CNFAdvanced, FallbackAlgorithmForAdvancedEncoding: pick(r, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum), DistributionBoundary: pick(r, -1, r.Range(0, 30)), CreatedClauseBoundary: pick(r, -1, r.Range(0, 20)), AtomBoundary: r.Range(0, 3)}
		tw := w.Twin()
		g := tw.Build(n)
		if g.Sort() != f.SortAnd {
			c.Skip("no conjunction")
			return
		}
		ops := tw.F.Operands(g)
		var within []f.Formula
		for _, op := range ops {
			m := newEvMon()
			x := w.Twin()
			normalform.FactorizedCNFWithHandler(x.F, x.Build(tw.From(op)), m)
			if (cfg.DistributionBoundary == -1 || m.dist <= cfg.DistributionBoundary) && (cfg.CreatedClauseBoundary == -1 || m.cls <= cfg.CreatedClauseBoundary) {
				within = append(within, op)
			}
		}
		y := normalform.CNF(tw.F, g, cfg)
		if y.Sort() != f.SortAnd {
			c.Skip("no conjunction")
			return
		}
		clauses := func(x f.Formula) []f.Formula {
			if x.Sort() == f.SortAnd {
				return tw.F.Operands(x)
			}
			return []f.Formula{x}
		}
		has := map[f.Formula]bool{}
		for _, x := range clauses(y) {
			has[x] = true
		}
		for _, op := range within {
			for _, x := range clauses(normalform.FactorizedCNF(tw.F, op)) {
				c.Check(has[x] || x.Sort() == f.SortTrue, "advanced CNF with bounds %d/%d of %s lacks %s of the operand %s, which keeps the bounds: %s", cfg.DistributionBoundary, cfg.CreatedClauseBoundary, n, x.Sprint(tw.F), op.Sprint(tw.F), cut(y.Sprint(tw.F), 600))
			}
		}
		if len(within) > 0 && len(within) < len(ops) {
			c.Obs("advanced CNFs with operands within and beyond the bounds", 1)
		}
		c.Obs("advanced CNFs", 1)
		c.NT(fmt.Sprint(n, cfg.DistributionBoundary, cfg.CreatedClauseBoundary))
	default: // number of models, one handler for many
		limit := r.Range(1, 12)
		hd := iter.HandlerWithLimit(limit)
		for i := 0; i < r.Range(2, 4); i++ {
			proj := r.Subset(w.N, 75)
			free := r.Intn(3)
			pv := w.VarsOf(proj)
			for j := 0; j < free; j++ {
				pv = append(pv, fac.Var(fmt.Sprintf("free_%d", j)))
			}
			k := projCount(e.t, proj) << uint(free)
			var str iter.Strategy
			if r.Bool() {
				str = iter.NewNoSplitMEStrategy()
			}
			cfg := &iter.Config{Handler: hd, Strategy: str}
			var n int
			var st handler.State
			how := "models"
			switch r.Intn(3) {
			case 0:
				var ms []*model.Model
				ms, st = enum.OnSolverWithConfig(e.s, pv, cfg)
				n = len(ms)
			case 1:
				how = "count"
				var b *big.Int
				b, st = count.OnSolverWithConfig(e.s, pv, cfg)
				n = int(b.Int64())
			default:
				how = "BDD"
				var b *bdd.BDD
				b, st = enum.ToBddOnSolverWithConfig(e.s, pv, cfg)
				x := b.ModelCount()
				x.Lsh(x, uint(len(pv)))
				x.Rsh(x, uint(len(b.VariableOrder())))
				n = int(x.Int64())
			}
			step := 1 << uint(free)
			want := k
			if k >= limit {
				want = (limit + step - 1) / step * step
			}
			c.Check(st.Success == (k < limit) && n == want, "%s with a limit of %d (use %d) over %v and %d unknown variables of %s: %d of %d models, success %v", how, limit, i, proj, free, cut(e.g.Sprint(fac), 300), n, k, st.Success)
			c.Obs("limited enumerations", 1)
			c.NT(fmt.Sprint(e.n, limit, proj))
		}
	}
}

func projCount(t TT, vs []int) int {
	seen := map[uint64]bool{}
	for _, a := range t.Models() {
		seen[a&maskOf(vs)] = true
	}
	return len(seen)
}

// p33freeVars: limits hold with any number of variables the solver does not know.
func p33freeVars(c *Ctx) {
	r := c.R
	nv := r.Range(1, 4)
	w := NewWorld(r, nv, false)
	n := clausesNode(GenClauses(r, nv, r.Range(1, 2), 1, 3))
	free := pick(r, r.Range(5, 25), 31, 32, 33, 61, 62, 63, 64, 65, 100)
	t := n.TT(nv)
	s := sat.NewSolver(w.F)
	s.Add(w.Build(n))
	pv := w.VarsOf(n.Vars())
	for i := 0; i < free; i++ {
		pv = append(pv, w.F.Var(fmt.Sprintf("free_%d", i)))
	}
	k := projCount(t, n.Vars())
	total := new(big.Int).Lsh(big.NewInt(int64(k)), uint(free))
	limit := pick(r, 1, 10, 1000, 1<<31-1, 1<<40)
	bddWay := r.Bool() && free < 40
	run := func(h handler.Handler) (*big.Int, handler.State) {
		cfg := &iter.Config{Handler: h}
		if bddWay {
			b, st := enum.ToBddOnSolverWithConfig(s, pv, cfg)
			x := b.ModelCount()
			x.Lsh(x, uint(len(pv)))
			return x.Rsh(x, uint(len(b.VariableOrder()))), st
		}
		return count.OnSolverWithConfig(s, pv, cfg)
	}
	m := newEvMon()
	got, st := run(m)
	what := fmt.Sprintf("count (BDD %v) of %s over %d variables the solver does not know", bddWay, n, free)
	c.Check(st.Success && got.Cmp(total) == 0, "%s: %v instead of %v", what, got, total)
	m.judgeTrace(c, "enumeration", true)
	_, st = run(iter.HandlerWithLimit(limit))
	c.Check(st.Success == (total.Cmp(big.NewInt(int64(limit))) < 0), "%s: %v models and a limit of %d, success %v", what, total, limit, st.Success)
	c.Obs("limits with many free variables", 1)
	c.NT(what)
}

// p33passive: watching a computation does not change its result.
func p33passive(c *Ctx) {
	r := c.R
	nv := r.Range(2, 7)
	g := stdCfg(r, nv)
	g.Depth = r.Range(1, 4)
	n := Gen(r, g)
	if r.Bool() {
		n = clausesNode(GenClauses(r, nv, r.Range(2, 4*nv), 1, 3))
	}
	if n.HasPB() {
		c.Skip("constraint")
		return
	}
	proto := NewWorld(r, nv, r.P(30))
	proj := r.Subset(nv, 70)
	str, sname := randStrategy(r, proto, proj)
	if _, split := str.(iter.NoSplitStrategy); !split && str != nil {
		str, sname = iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), 4), "most"
	}
	cfg := hotSatConfig(r)
	simp := &simplification.Config{RestrictBackbone: r.Bool(), FactorOut: r.Bool(), SimplifyNegations: r.Bool(), UseRatingFunction: r.Bool(), RatingFunction: simplification.DefaultRatingFunction}
	ops := []struct {
		name string
		run  func(w *World, g f.Formula, h handler.Handler) string
	}{
		{"FactorizedCNF", func(w *World, g f.Formula, h handler.Handler) string {
			x, _ := normalform.FactorizedCNFWithHandler(w.F, g, h)
			return x.Sprint(w.F)
		}},
		{"FactorizedDNF", func(w *World, g f.Formula, h handler.Handler) string {
			x, _ := normalform.FactorizedDNFWithHandler(w.F, g, h)
			return x.Sprint(w.F)
		}},
		{"BDD", func(w *World, g f.Formula, h handler.Handler) string {
			b, _ := bdd.CompileWithHandler(w.F, g, h)
			return fmt.Sprint(b.NodeCount(), b.ModelCount(), b.CNF().Sprint(w.F))
		}},
		{"BDD-DNF", func(w *World, g f.Formula, h handler.Handler) string {
			x, _ := bdd.DNFWithHandler(w.F, g, h)
			return x.Sprint(w.F)
		}},
		{"enumeration " + sname, func(w *World, g f.Formula, h handler.Handler) string {
			s := sat.NewSolver(w.F, cfg)
			s.Add(g)
			ms, _ := enum.OnSolverWithConfig(s, w.VarsOf(proj), &iter.Config{Handler: h, Strategy: str})
			out := ""
			for _, m := range ms {
				out += litStr(w, m.Literals) + ";"
			}
			return out
		}},
		{"SAT call", func(w *World, g f.Formula, h handler.Handler) string {
			s := sat.NewSolver(w.F, cfg)
			s.Add(g)
			res := s.Call(sat.Params().Handler(h).WithModel(w.Vars()))
			if res.Model() == nil {
				return "unsatisfiable"
			}
			return litStr(w, res.Model().Literals)
		}},
		{"optimisation", func(w *World, g f.Formula, h handler.Handler) string {
			s := sat.NewSolver(w.F, cfg)
			s.Add(g)
			m, _ := s.MaximizeWithHandler(w.Lits(posLits(nv)), h, w.Vars()...)
			if m == nil {
				return "unsatisfiable"
			}
			return litStr(w, m.Literals)
		}},
		{"Advanced", func(w *World, g f.Formula, h handler.Handler) string {
			x, _ := simplification.AdvancedWithHandler(w.F, g, h, simp)
			return x.Sprint(w.F)
		}},
		{"QMC", func(w *World, g f.Formula, h handler.Handler) string {
			x, _ := simplification.QMCWithHandler(w.F, g, h)
			return x.Sprint(w.F)
		}},
	}
	for _, i := range r.Perm(len(ops))[:r.Range(1, 4)] {
		op := ops[i]
		if strings.HasPrefix(op.name, "Fact") && max(factSize(n, true, true), factSize(n, true, false)) > 300 {
			continue
		}
		t1, t2 := proto.Twin(), proto.Twin()
		m := newEvMon()
		a := op.run(t1, t1.Build(n), handler.NopHandler)
		b := op.run(t2, t2.Build(n), m)
		m.judgeTrace(c, op.name, true)
		c.Check(a == b, "%s of %s gives %s, watched by a handler %s", op.name, n, cut(a, 400), cut(b, 400))
		c.Obs("watched and unwatched runs compared", 1)
		c.NT(op.name + n.String())
	}
}

func posLits(nv int) (out []PLit) {
	for v := 0; v < nv; v++ {
		out = append(out, PLit{v, true})
	}
	return
}

func init() {
	register(&PropDef{ID: "P33", Quick: 60000, Thorough: 500000, Run: runP33,
		Rule:   "computations with handlers on generated formulas, solvers, kernels and MaxSAT problems, complete and cancelled at random events; an online checker follows the events (start first, SAT calls bracketed, models found = committed + rolled back = result, bounds strictly better and models, MaxSAT bounds enclosing); bounded handlers are compared with event counts of a watched twin run and used repeatedly; watched and unwatched runs are compared",
		Need:   []string{"events judged", "SAT calls observed", "complete traces", "starts judged", "enumerations balanced", "balanced with rollbacks", "cancelled enumerations balanced", "bounds of optimisations", "MaxSAT bounds", "bounded factorisations", "bounded BDD compilations", "advanced CNFs with operands within and beyond the bounds", "limited enumerations", "limits with many free variables", "watched and unwatched runs compared"},
		Assume: []string{"a satisfiability call on a solver already known to be unsatisfiable has a start event only", "with a split strategy a limit may be reached by models that are rolled back later, so limits are judged exactly without splits"}})
	probe("bounded-handler-reuse", "P33", func(c *Ctx) {
		fac := f.NewFactory()
		v := func(s string) f.Formula { return fac.Variable(s) }
		g := fac.Or(fac.And(v("a"), v("b")), fac.And(v("c"), v("d")), fac.And(v("e"), v("x")))
		h := normalform.NewFactorizationHandler(-1, 2)
		_, st := normalform.FactorizedCNFWithHandler(fac, g, h)
		c.Check(!st.Success, "8 clauses within a bound of 2")
		_, st = normalform.FactorizedCNFWithHandler(fac, fac.Or(v("a"), v("b")), h)
		c.Check(st.Success, "factorisation handler refuses everything after it cancelled one factorisation")
		b := bdd.HandlerWithNodes(5)
		_, st = bdd.CompileWithHandler(fac, g, b)
		c.Check(!st.Success, "BDD within 5 nodes")
		_, st = bdd.CompileWithHandler(fac, v("a"), b)
		c.Check(st.Success, "nodes handler refuses everything after it cancelled one compilation")
	})
	probe("found-models-overflow", "P33", func(c *Ctx) {
		for _, free := range []int{62, 63, 64, 70} {
			fac := f.NewFactory()
			s := sat.NewSolver(fac)
			s.Add(fac.Variable("a"))
			vars := []f.Variable{fac.Var("a")}
			for i := 0; i < free; i++ {
				vars = append(vars, fac.Var(fmt.Sprintf("u%d", i)))
			}
			_, st := count.OnSolverWithConfig(s, vars, &iter.Config{Handler: iter.HandlerWithLimit(10)})
			c.Check(!st.Success, "limit of 10 models is not reached by 2^%d models", free)
		}
	})
}
