package main

import (
	"fmt"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// SH drives one SAT solver through a random history and keeps the abstract
// content (the list of formulas currently on the solver).
type SH struct {
	c      *Ctx
	w      *World
	r      *Rng
	s      *sat.Solver
	sc     *sat.Config
	small  bool // truth tables; otherwise the CDCL reference
	acts   []shAct
	states []shState
	incs   []*shInc
	propN  int
	hist   []string
	known  map[string]bool // every variable name ever mentioned
	pb     bool
	ver    int
	ref    *RefEnc
	refVer int
	retire []*sat.SolverState // invalidated states
	maxAct int
	pool   []*Node // formulas generated so far
}

type shAct struct {
	n    *Node
	prop f.Proposition // nil if added as formula
	g    f.Formula
}

type shState struct {
	st   *sat.SolverState
	acts []shAct
	ver  int
}

type shInc struct {
	data  *encoding.CCIncrementalData
	upper bool
	bound int
	idx   []int
	depth int // number of saved states when last touched
}

func newSH(c *Ctx, sc *sat.Config, nv int) *SH {
	r := c.R
	h := &SH{c: c, r: r, sc: sc, small: nv <= 8, known: map[string]bool{}, maxAct: 14}
	if h.small {
		h.w = NewWorld(r, nv, r.P(20))
	} else {
		h.w = NewWorldPlain(nv, false)
	}
	h.w.F.PutConfiguration(randEncConfig(r))
	h.s = sat.NewSolver(h.w.F, sc)
	h.pb = r.P(60)
	return h
}

func (h *SH) logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	h.hist = append(h.hist, s)
	h.c.Logf("%s", s)
}

func (h *SH) what() string {
	return fmt.Sprintf("solver (%s) after %s", cfgName(h.sc), cut(strings.Join(h.hist, "; "), 1500))
}

// genNode returns a new random formula or one that shares sub-formulas with
// earlier ones (among them discarded additions and formulas of calls).
func (h *SH) genNode() *Node {
	r := h.r
	if h.small && len(h.pool) > 0 && r.P(25) {
		h.c.Obs("formulas sharing parts with earlier ones", 1)
		n := h.pool[r.Intn(len(h.pool))]
		if r.P(50) && len(n.Ops) > 0 {
			n = n.Ops[r.Intn(len(n.Ops))]
		}
		x := nLit(r.Intn(h.w.N), r.Bool())
		switch r.Intn(5) {
		case 0:
			return n
		case 1:
			return nOr(x, n)
		case 2:
			return nOr(x, nNot(n))
		case 3:
			return nAnd(nOr(x, n), nOr(nLit(r.Intn(h.w.N), r.Bool()), n))
		default:
			return &Node{K: KEquiv, Ops: []*Node{x, n}}
		}
	}
	n := h.freshNode()
	h.pool = append(h.pool, n)
	return n
}

func (h *SH) freshNode() *Node {
	r, nv := h.r, h.w.N
	switch x := r.Intn(10); {
	case x < 3 && h.small:
		return Gen(r, stdCfg(r, nv))
	case x < 5 && h.pb:
		g := stdCfg(r, nv)
		g.CC, g.PB, g.MaxCC, g.Depth = 3, 2, 5, r.Range(0, 2)
		return Gen(r, g)
	case x < 6 && h.pb:
		return genCC(r, GenCfg{NV: nv, MaxCC: 6, CCClean: r.P(80)})
	case x < 9 || !h.small:
		if h.small {
			return clausesNode(GenClauses(r, nv, r.Range(1, 4), 1, 4))
		}
		return clausesNode(GenClauses(r, nv, r.Range(1, nv), 2, 4))
	}
	g := stdCfg(r, nv)
	g.Depth = 1
	return Gen(r, g)
}

func (h *SH) note(g f.Formula) {
	for _, v := range f.Variables(h.w.F, g).Content() {
		n, _ := h.w.F.VarName(v)
		h.known[n] = true
	}
}

func (h *SH) push(n *Node, prop f.Proposition, g f.Formula) {
	h.acts = append(append([]shAct{}, h.acts...), shAct{n, prop, g})
	h.ver++
	h.note(g)
}

// add puts a random formula or proposition on the solver.
func (h *SH) add() {
	n := h.genNode()
	g := h.w.Build(n)
	if h.sc.ProofGeneration && h.r.P(70) || h.r.P(20) {
		h.addProp(n)
		return
	}
	h.logf("add %s", cut(g.Sprint(h.w.F), 200))
	h.s.Add(g)
	h.push(n, nil, g)
}

type backpack struct{ n int }

func (b backpack) String() string { return fmt.Sprintf("p%d", b.n) }

func (h *SH) newProp(n *Node) f.Proposition {
	g := h.w.Build(n)
	h.propN++
	if h.propN%3 == 0 {
		return f.NewExtendedProposition(g, backpack{h.propN})
	}
	return f.NewStandardProposition(g, fmt.Sprintf("p%d", h.propN))
}

func (h *SH) addProp(n *Node) {
	p := h.newProp(n)
	h.logf("add proposition p%d: %s", h.propN, cut(p.Formula().Sprint(h.w.F), 200))
	h.s.AddProposition(p)
	h.push(n, p, p.Formula())
}

func (h *SH) addInc() {
	r, nv := h.r, h.w.N
	if nv < 2 {
		return
	}
	k := r.Range(2, min(nv, 6))
	idx := r.Perm(nv)[:k]
	inc := &shInc{upper: r.Bool(), idx: idx}
	cmp := f.GE
	inc.bound = r.Range(0, k)
	if inc.upper {
		cmp = f.LE
	}
	g := h.w.F.CC(cmp, uint32(inc.bound), h.w.VarsOf(idx)...)
	h.logf("add incrementally %s", g.Sprint(h.w.F))
	data, err := h.s.AddIncrementalCC(g)
	_ = err
	inc.data = data
	inc.depth = len(h.states)
	h.push(inc.node(), nil, g)
	if data != nil {
		h.incs = append(h.incs, inc)
	}
	h.c.Obs("incremental constraints", 1)
}

func (i *shInc) node() *Node {
	n := &Node{K: KCC, Cmp: GE, Rhs: i.bound}
	if i.upper {
		n.Cmp = LE
	}
	for _, v := range i.idx {
		n.Lits = append(n.Lits, PLit{v, true})
	}
	return n
}

func (h *SH) tighten() bool {
	if len(h.incs) == 0 {
		return false
	}
	i := h.incs[h.r.Intn(len(h.incs))]
	if i.upper {
		if i.bound == 0 {
			return false
		}
		i.bound -= h.r.Range(1, i.bound)
		h.logf("tighten to at most %d", i.bound)
		i.data.NewUpperBoundForSolver(i.bound)
	} else {
		if i.bound >= len(i.idx) {
			return false
		}
		i.bound += h.r.Range(1, len(i.idx)-i.bound)
		h.logf("tighten to at least %d", i.bound)
		i.data.NewLowerBoundForSolver(i.bound)
	}
	i.depth = len(h.states)
	h.push(i.node(), nil, h.w.Build(i.node()))
	h.c.Obs("bounds tightened", 1)
	return true
}

func (h *SH) save() {
	h.states = append(h.states, shState{h.s.SaveState(), h.acts, h.ver})
	h.logf("save state #%d", len(h.states))
}

func (h *SH) load() bool {
	if len(h.states) == 0 {
		return false
	}
	k := h.r.Intn(len(h.states))
	if h.r.P(60) {
		k = len(h.states) - 1
	}
	h.logf("load state #%d", k+1)
	err := h.s.LoadState(h.states[k].st)
	h.c.Check(err == nil, "%s: loading a valid state fails: %v", h.what(), err)
	for _, x := range h.states[k+1:] {
		h.retire = append(h.retire, x.st)
	}
	h.acts = h.states[k].acts
	h.ver++
	h.states = h.states[:k+1]
	var keep []*shInc
	for _, i := range h.incs {
		if i.depth <= k {
			keep = append(keep, i)
		}
	}
	h.incs = keep
	h.c.Obs("states loaded", 1)
	return true
}

func (h *SH) loadBad() bool {
	if len(h.retire) == 0 {
		return false
	}
	st := h.retire[h.r.Intn(len(h.retire))]
	h.logf("load an invalidated state")
	err := h.s.LoadState(st)
	h.c.Check(err != nil, "%s: loading an invalidated state succeeds", h.what())
	h.c.Obs("invalid states refused", 1)
	return true
}

// content is the truth table of everything on the solver (small mode).
func (h *SH) tt(extra ...*Node) TT {
	t := TTConst(h.w.N, true)
	for _, a := range h.acts {
		t = t.And(a.n.TT(h.w.N))
	}
	for _, e := range extra {
		t = t.And(e.TT(h.w.N))
	}
	return t
}

func (h *SH) encode(extra ...*Node) *RefEnc {
	if len(extra) == 0 && h.ref != nil && h.refVer == h.ver {
		return h.ref
	}
	e := NewRefEnc()
	for v := 0; v < h.w.N; v++ {
		e.Var(v)
	}
	for _, a := range h.acts {
		e.Assert(a.n)
	}
	for _, x := range extra {
		e.Assert(x)
	}
	if len(extra) == 0 {
		h.ref, h.refVer = e, h.ver
	}
	return e
}

// sat is the reference answer.
func (h *SH) sat(asm []PLit, extra ...*Node) bool {
	if h.small {
		t := h.tt(extra...)
		for _, l := range asm {
			t = t.And(nLit(l.V, l.Pos).TT(h.w.N))
		}
		return !t.IsFalse()
	}
	e := h.encode(extra...)
	var ra []int32
	for _, l := range asm {
		ra = append(ra, e.PL(l))
	}
	ok, _ := e.S.Solve(ra...)
	return ok
}

func (h *SH) randLits(k int) []PLit {
	var out []PLit
	for i := 0; i < k; i++ {
		out = append(out, PLit{h.r.Intn(h.w.N), h.r.Bool()})
	}
	return out
}

// call asks the solver with random call parameters and judges the answer; it
// returns whether a core was checked.
func (h *SH) call(forceCore bool) {
	r, c, w := h.r, h.c, h.w
	p := sat.Params()
	var asm []PLit
	var extra []*Node
	var given []f.Proposition
	desc := "call"
	if r.P(60) {
		asm = h.randLits(r.Range(1, min(6, w.N+1)))
		if r.P(80) {
			seen := map[int]bool{}
			var a2 []PLit
			for _, l := range asm {
				if !seen[l.V] {
					a2 = append(a2, l)
				}
				seen[l.V] = true
			}
			asm = a2
		}
		desc += " assuming " + litStr(w, w.Lits(asm))
		for _, l := range asm {
			switch {
			case h.sc.ProofGeneration && r.P(70):
				pr := h.newProp(nLit(l.V, l.Pos))
				given = append(given, pr)
				p.Proposition(pr)
			case l.Pos && r.Bool():
				p.Variable(w.vars[l.V])
			default:
				p.Literal(w.Lit(l))
			}
			h.note(w.F.Literal(w.name[l.V], true))
		}
	}
	if r.P(35) {
		for i := 0; i < r.Range(1, 2); i++ {
			n := h.genNode()
			g := w.Build(n)
			desc += " adding " + cut(g.Sprint(w.F), 150)
			if r.Bool() {
				pr := h.newProp(n)
				given = append(given, pr)
				p.Proposition(pr)
			} else {
				p.Formula(g)
			}
			extra = append(extra, n)
			if g.Sort() == f.SortLiteral {
				h.note(g)
			}
		}
	}
	core := h.sc.ProofGeneration && (forceCore || r.P(50))
	if core {
		p.WithCore()
		desc += " with core"
	}
	req := r.Subset(w.N, pick(r, 100, 50))
	model := r.P(70)
	if model {
		p.WithModel(w.VarsOf(req))
	}
	if r.P(40) {
		p.WithUPZeros()
	}
	var hdl *CancelAt
	if r.P(40) {
		hdl = &CancelAt{}
		if r.P(50) {
			hdl.N, hdl.Sticky = r.Range(1, 6), r.Bool()
		}
		p.Handler(hdl)
	}
	h.logf("%s", desc)
	res := h.s.Call(p)
	if hdl != nil && hdl.Fired > 0 {
		c.Check(!res.OK() && res.Canceled() && !res.State().Success && res.State().CancelCause == hdl.Cause, "%s: cancelled call reports state %v, cause %v", h.what(), res.State(), hdl.Cause)
		c.Check(hdl.After == 0, "%s: %d events after the cancellation", h.what(), hdl.After)
		c.Check(res.Model() == nil && res.UnsatCore() == nil && len(res.UpZeroLits()) == 0, "%s: cancelled call has results", h.what())
		c.Obs("cancelled calls", 1)
		return
	}
	c.Check(res.OK() && !res.Canceled() && res.State().Success, "%s: call reports cancellation", h.what())
	want := h.sat(asm, extra...)
	c.Check(res.Sat() == want, "%s: satisfiable=%v, expected %v", h.what(), res.Sat(), want)
	if want {
		c.Obs("satisfiable calls", 1)
		c.Check(res.UnsatCore() == nil, "%s: satisfiable call with a core", h.what())
		c.Check((res.Model() != nil) == model, "%s: model present: %v, requested: %v", h.what(), res.Model() != nil, model)
		if model {
			seen := map[int]bool{}
			var ml []PLit
			for _, l := range res.Model().Literals {
				q := w.PLit(l)
				c.Check(q.V < w.N && !seen[q.V], "%s: model has %s (foreign or twice)", h.what(), l.Sprint(w.F))
				seen[q.V] = true
				ml = append(ml, q)
			}
			need := map[int]bool{}
			for _, a := range h.acts {
				for _, v := range w.VarIdxSet(f.Variables(w.F, a.g).Content()) {
					need[v] = true
				}
			}
			wanted := map[int]bool{}
			for _, v := range req {
				wanted[v] = true
				c.Check(!need[v] || seen[v] || h.trivially(v), "%s: model lacks requested variable %s", h.what(), w.name[v])
			}
			for v := range seen {
				c.Check(wanted[v], "%s: model has variable %s which was not requested", h.what(), w.name[v])
			}
			c.Check(h.sat(append(append([]PLit{}, asm...), ml...), extra...), "%s: model %s is no model", h.what(), res.Model().Sprint(w.F))
		}
		for _, l := range res.UpZeroLits() {
			q := w.PLit(l)
			if q.V < w.N {
				c.Check(!h.sat([]PLit{{q.V, !q.Pos}}, extra...), "%s: %s is reported as implied", h.what(), l.Sprint(w.F))
			}
		}
		return
	}
	c.Obs("unsatisfiable calls", 1)
	c.Check(res.Model() == nil, "%s: unsatisfiable call with a model", h.what())
	c.Check((res.UnsatCore() != nil) == core, "%s: core present: %v, requested: %v", h.what(), res.UnsatCore() != nil, core)
	if core {
		h.judgeCore(res.UnsatCore().Propositions, asm, extra, given, res.UnsatCore().IsGuaranteedMUS)
	}
}

// trivially reports whether a variable may be missing on the solver although
// a formula on it mentions it (constraints that encode to nothing).
func (h *SH) trivially(v int) bool {
	known := knownIdx(h.w, h.s)
	return !known[v]
}

func (h *SH) judgeCore(core []f.Proposition, asm []PLit, extra []*Node, given []f.Proposition, mus bool) {
	c, w := h.c, h.w
	ok := map[f.Proposition]bool{}
	for _, a := range h.acts {
		if a.prop != nil {
			ok[a.prop] = true
		}
	}
	for _, p := range given {
		ok[p] = true
	}
	var ns []*Node
	seen := map[f.Proposition]bool{}
	foreign := 0
	var desc []string
	var plain []f.Formula
	for _, p := range core {
		c.Check(p != nil, "%s: core contains a nil proposition", h.what())
		c.Check(!seen[p], "%s: core contains %s twice", h.what(), p.Sprint(w.F))
		seen[p] = true
		desc = append(desc, p.Sprint(w.F))
		if x, y := p.(*f.ExtendedProposition[backpack]); y {
			c.Check(x.Sprint(w.F) == x.Backpack.String()+": "+x.Formula().Sprint(w.F), "%s: extended proposition printed as %q", h.what(), x.Sprint(w.F))
			c.Obs("extended propositions in cores", 1)
		}
		ns = append(ns, w.From(p.Formula()))
		if !ok[p] {
			foreign++
			plain = append(plain, p.Formula())
		}
	}
	e := NewRefEnc()
	for _, n := range ns {
		e.Assert(n)
	}
	sat, _ := e.S.Solve()
	c.Check(!sat, "%s: core {%s} is satisfiable", h.what(), strings.Join(desc, "; "))
	// propositions that were not added explicitly stem from formulas that were
	// added without one; over the base variables they must be implied by these
	if len(plain) > 0 {
		e := NewRefEnc()
		for _, a := range h.acts {
			if a.prop == nil {
				e.Assert(a.n)
			}
		}
		for _, l := range asm {
			e.S.Add(e.PL(l))
		}
		for _, x := range extra {
			e.Assert(x)
		}
		ok, _ := e.S.Solve()
		for _, g := range plain {
			n := w.From(g)
			if w.OnlyBase(n) && ok {
				y, _ := e.S.Solve(e.Lit(n) ^ 1)
				c.Check(!y, "%s: core contains %s, which was never added", h.what(), g.Sprint(w.F))
			}
		}
		if !ok {
			c.Obs("cores among plain formulas", 1)
		}
	}
	if mus && len(core) > 1 {
		for i := range ns {
			e := NewRefEnc()
			for j := range ns {
				if j != i {
					e.Assert(ns[j])
				}
			}
			y, _ := e.S.Solve()
			c.Check(y, "%s: core {%s} is flagged minimal but is not", h.what(), strings.Join(desc, "; "))
		}
	}
	c.Obs("cores judged", 1)
	if foreign == 0 {
		c.Obs("cores of own propositions", 1)
	}
	if len(core) > 1 && foreign == 0 {
		c.Obs("cores of several own propositions", 1)
		h.c.NT(strings.Join(desc, ";"))
	}
}

func (h *SH) enumerate() {
	r, c, w := h.r, h.c, h.w
	vs := r.Subset(w.N, 60)
	if len(vs) > 5 {
		vs = vs[:5]
	}
	h.logf("enumerate over %d variables", len(vs))
	cfg := &iter.Config{Handler: &CancelAt{}, Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), r.Range(3, 8))}
	ms, st := enum.OnSolverWithConfig(h.s, w.VarsOf(vs), cfg)
	c.Check(st.Success, "%s: enumeration is cancelled", h.what())
	got := map[uint64]bool{}
	for _, m := range ms {
		mask, val, err := w.LitsAsg(m.Literals)
		wm := uint64(0)
		for _, v := range vs {
			wm |= 1 << uint(v)
		}
		c.Check(err == "" && mask == wm, "%s: enumerated model %s does not assign exactly the projection variables", h.what(), m.Sprint(w.F))
		c.Check(!got[val], "%s: model %s is enumerated twice", h.what(), m.Sprint(w.F))
		got[val] = true
	}
	for i := uint64(0); i < 1<<uint(len(vs)); i++ {
		var as []PLit
		val := uint64(0)
		for j, v := range vs {
			b := i>>uint(j)&1 == 1
			as = append(as, PLit{v, b})
			if b {
				val |= 1 << uint(v)
			}
		}
		c.Check(h.sat(as) == got[val], "%s: enumeration delivers %s: %v, expected %v", h.what(), litStr(w, w.Lits(as)), got[val], !got[val])
	}
	c.Obs("enumerations", 1)
	c.Obs("enumerated models", len(ms))
}

func (h *SH) backbone() {
	r, c, w := h.r, h.c, h.w
	vs := r.Subset(w.N, pick(r, 100, 60, 30))
	kind := pick(r, sat.BBBoth, sat.BBBoth, sat.BBPos, sat.BBNeg)
	h.logf("backbone %d over %d variables", kind, len(vs))
	var hdl *CancelAt
	var bb *sat.Backbone
	if r.P(30) {
		hdl = &CancelAt{N: r.Intn(10), Sticky: r.Bool()}
		x, st := h.s.ComputeBackboneWithHandler(w.F, w.VarsOf(shuffled(r, vs)), hdl, kind)
		if hdl.Fired > 0 {
			c.Check(!st.Success && st.CancelCause == hdl.Cause, "%s: cancelled backbone reports state %v", h.what(), st)
			c.Check(hdl.After == 0, "%s: %d events after the cancellation", h.what(), hdl.After)
			c.Obs("cancelled backbones", 1)
			return
		}
		c.Check(st.Success, "%s: backbone reports cancellation", h.what())
		bb = x
	} else if kind == sat.BBBoth && r.Bool() {
		bb = h.s.ComputeBackbone(w.F, w.VarsOf(shuffled(r, vs)))
	} else {
		bb = h.s.ComputeBackbone(w.F, w.VarsOf(shuffled(r, vs)), kind)
	}
	judgeBackbone(c, w, bb, vs, kind, h.sat(nil), func(l PLit) bool { return h.sat([]PLit{l}) }, h.what())
}

// judgeBackbone compares with the definition; can(l) tells whether a model
// with literal l exists.
func judgeBackbone(c *Ctx, w *World, bb *sat.Backbone, vs []int, kind sat.BackboneSort, isSat bool, can func(PLit) bool, what string) {
	c.Check(bb != nil && bb.Sat == isSat, "%s: backbone reports satisfiable=%v, expected %v", what, bb != nil && bb.Sat, isSat)
	c.Obs("backbones", 1)
	if !isSat {
		c.Check(len(bb.Positive) == 0 && len(bb.Negative) == 0 && len(bb.Optional) == 0, "%s: backbone of an unsatisfiable solver lists variables", what)
		c.Check(bb.ToFormula(w.F) == w.F.Falsum() && len(bb.CompleteBackbone(w.F)) == 0, "%s: backbone of an unsatisfiable solver as formula is %s", what, bb.ToFormula(w.F).Sprint(w.F))
		c.Obs("backbones of unsatisfiable solvers", 1)
		return
	}
	where := map[int][]string{}
	put := func(vs []f.Variable, s string) {
		for _, v := range vs {
			n, _ := w.F.VarName(v)
			where[w.Idx(n)] = append(where[w.Idx(n)], s)
		}
	}
	put(bb.Positive, "positive")
	put(bb.Negative, "negative")
	put(bb.Optional, "optional")
	in := map[int]bool{}
	for _, v := range vs {
		in[v] = true
	}
	for v := range where {
		c.Check(in[v], "%s: backbone lists variable %d which was not requested", what, v)
	}
	for _, v := range vs {
		p, n := can(PLit{v, true}), can(PLit{v, false})
		want := "optional"
		if !n {
			want = "positive"
		} else if !p {
			want = "negative"
		}
		if want != "optional" {
			c.Obs("backbone literals", 1)
		} else {
			c.Obs("optional variables", 1)
		}
		if kind == sat.BBPos && want != "positive" || kind == sat.BBNeg && want != "negative" {
			want = ""
		}
		got := strings.Join(where[v], "+")
		c.Check(got == want, "%s: backbone (kind %d) lists %s as %q, expected %q", what, kind, w.name[v], got, want)
	}
	// the other two forms of the same answer
	lits := bb.CompleteBackbone(w.F)
	g := map[f.Literal]int{}
	for _, l := range lits {
		g[l]++
	}
	for _, v := range bb.Positive {
		g[v.AsLiteral()]--
	}
	for _, v := range bb.Negative {
		g[v.Negate(w.F)]--
	}
	for l, k := range g {
		c.Check(k == 0, "%s: complete backbone %s and the lists differ in %s", what, litStr(w, lits), l.AsFormula().Sprint(w.F))
	}
	c.Check(bb.ToFormula(w.F) == w.F.Minterm(lits...), "%s: backbone %s as formula is %s", what, litStr(w, lits), bb.ToFormula(w.F).Sprint(w.F))
	c.Obs("backbones as formulas", 1)
}

func (h *SH) optimise() {
	r, c, w := h.r, h.c, h.w
	var lits []PLit
	k := r.Range(1, min(w.N+1, 8))
	if r.P(5) {
		k = 0
	}
	if r.P(60) {
		for _, v := range r.Perm(w.N)[:min(k, w.N)] {
			lits = append(lits, PLit{v, r.Bool()})
		}
	} else {
		lits = h.randLits(k)
	}
	addV := r.Subset(w.N, 30)
	max := r.Bool()
	h.logf("optimise max=%v over %s", max, litStr(w, w.Lits(lits)))
	known := knownIdx(w, h.s)
	var hdl *CancelAt
	var lib func() (ms []PLit, nilModel bool)
	conv := func(m []f.Literal) []PLit {
		var out []PLit
		for _, l := range m {
			out = append(out, w.PLit(l))
		}
		return out
	}
	cancelled := false
	lib = func() ([]PLit, bool) {
		ll, av := w.Lits(lits), w.VarsOf(addV)
		if r.P(40) {
			hdl = &CancelAt{}
			if r.P(60) {
				hdl.N, hdl.Sticky = r.Range(1, 12), r.Bool()
			}
			fn := h.s.MinimizeWithHandler
			if max {
				fn = h.s.MaximizeWithHandler
			}
			m, st := fn(ll, hdl, av...)
			if hdl.Fired > 0 {
				cancelled = true
				c.Check(!st.Success && eventEq(st.CancelCause, hdl.Cause), "%s: cancelled optimisation reports state %v, cause %v", h.what(), st, hdl.Cause)
				c.Check(hdl.After == 0, "%s: %d events after the cancellation", h.what(), hdl.After)
			} else {
				c.Check(st.Success, "%s: optimisation reports cancellation", h.what())
			}
			if m == nil {
				return nil, true
			}
			return conv(m.Literals), false
		}
		if max {
			m := h.s.Maximize(ll, av...)
			if m == nil {
				return nil, true
			}
			return conv(m.Literals), false
		}
		m := h.s.Minimize(ll, av...)
		if m == nil {
			return nil, true
		}
		return conv(m.Literals), false
	}
	m, none := lib()
	if cancelled {
		c.Obs("cancelled optimisations", 1)
		if !none {
			c.Check(h.sat(m), "%s: intermediate model of a cancelled optimisation is no model", h.what())
		}
		return
	}
	isSat := h.sat(nil)
	c.Check(none == !isSat, "%s: optimisation returns a model: %v, satisfiable: %v", h.what(), !none, isSat)
	c.Obs("optimisations", 1)
	if !isSat {
		return
	}
	asg := map[int]bool{}
	for _, l := range m {
		_, dup := asg[l.V]
		c.Check(l.V < w.N && !dup, "%s: optimum model has a foreign or repeated variable", h.what())
		asg[l.V] = l.Pos
	}
	wantVars := map[int]bool{}
	for _, v := range addV {
		wantVars[v] = known[v]
	}
	for _, l := range lits {
		wantVars[l.V] = known[l.V]
	}
	for v := 0; v < w.N; v++ {
		_, got := asg[v]
		c.Check(got == wantVars[v], "%s: optimum model has variable %s: %v, expected %v", h.what(), w.name[v], got, wantVars[v])
	}
	c.Check(h.sat(m), "%s: optimum model is no model", h.what())
	// value of the returned model: unknown variables are free
	bestFree := func(f func(PLit) (bool, bool)) int {
		val := 0
		cntP, cntN := map[int]int{}, map[int]int{}
		for _, l := range lits {
			if b, ok := f(l); ok {
				if b {
					val++
				}
			} else if l.Pos {
				cntP[l.V]++
			} else {
				cntN[l.V]++
			}
		}
		for v := 0; v < w.N; v++ {
			a, b := cntP[v], cntN[v]
			if (a > b) == max {
				val += a
			} else {
				val += b
			}
		}
		return val
	}
	got := bestFree(func(l PLit) (bool, bool) {
		b, ok := asg[l.V]
		return b == l.Pos, ok
	})
	// reference optimum
	n := &Node{K: KPBC, Cmp: GE}
	for _, l := range lits {
		n.Lits = append(n.Lits, l)
		n.Coefs = append(n.Coefs, 1)
	}
	best := -1
	if h.small {
		for _, a := range h.tt().Models() {
			v := 0
			for _, l := range lits {
				if (a>>uint(l.V)&1 == 1) == l.Pos {
					v++
				}
			}
			if best < 0 || max && v > best || !max && v < best {
				best = v
			}
		}
	} else {
		// try to improve on the result; a better value would contradict it
		m := *n
		if max {
			m.Rhs = got + 1
		} else {
			m.Cmp, m.Rhs = LE, got-1
		}
		best = got
		if len(lits) > 0 && h.sat(nil, &m) {
			best = -2
		}
		m.Cmp, m.Rhs = EQ, got
		if len(lits) > 0 {
			c.Check(h.sat(nil, &m), "%s: optimum value %d is not attainable", h.what(), got)
		}
	}
	c.Check(got == best, "%s: optimum value %d, expected %d (-2: a better one exists)", h.what(), got, best)
	if len(lits) > 1 && got > 0 && got < len(lits) {
		c.Obs("non-trivial optima", 1)
		c.NT(h.what())
	}
}

func eventEq(a, b event.Event) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.EventType() == b.EventType()
}

// readback compares what the solver tells about its content.
func (h *SH) readback() {
	c, w := h.c, h.w
	fs := h.s.FormulasOnSolver()
	h.logf("read formulas back")
	for _, v := range h.s.CoreSolver().KnownVariables(w.F).Content() {
		n, _ := w.F.VarName(v)
		i := w.Idx(n)
		c.Check(i >= w.N || h.known[n], "%s: solver knows variable %s which was never mentioned", h.what(), n)
	}
	if h.small {
		c.EqTT(w.ProjTT(fs...), h.tt(), "%s: formulas on solver %s", h.what(), cut(w.F.And(fs...).Sprint(w.F), 600))
		for _, g := range fs {
			if n := w.From(g); w.OnlyBase(n) {
				c.Check(h.tt().Implies(n.TT(w.N)), "%s: %s is on the solver but not implied", h.what(), g.Sprint(w.F))
			}
		}
	} else {
		e := NewRefEnc()
		for v := 0; v < w.N; v++ {
			e.Var(v)
		}
		for _, g := range fs {
			e.Assert(w.From(g))
		}
		x, _ := e.S.Solve()
		c.Check(x == h.sat(nil), "%s: formulas on solver have satisfiability %v", h.what(), x)
		for i := 0; i < 4; i++ {
			as := h.randLits(5)
			var ra []int32
			for _, l := range as {
				ra = append(ra, e.PL(l))
			}
			x, _ := e.S.Solve(ra...)
			c.Check(x == h.sat(as), "%s: formulas on solver with %s have satisfiability %v", h.what(), litStr(w, w.Lits(as)), x)
		}
	}
	occ := h.s.VarOccurrences(nil)
	cnt := map[string]int{}
	for _, v := range h.s.CoreSolver().KnownVariables(w.F).Content() {
		n, _ := w.F.VarName(v)
		cnt[n] = 0
	}
	for v, k := range occ {
		n, ok := w.F.VarName(v)
		_, kn := cnt[n]
		c.Check(ok && kn && k >= 0, "%s: occurrences list unknown variable %s", h.what(), n)
	}
	c.Check(len(occ) == len(cnt), "%s: occurrences list %d of %d variables", h.what(), len(occ), len(cnt))
	if !h.sc.UseAtMostClauses {
		// every clause of the read-back formulas contributes one occurrence per literal
		for _, g := range fs {
			if g.Sort() == f.SortFalse {
				continue
			}
			for _, v := range f.Variables(w.F, g).Content() {
				n, _ := w.F.VarName(v)
				cnt[n]++
			}
		}
		for v, k := range occ {
			n, _ := w.F.VarName(v)
			// equal clauses collapse in the set of formulas
			c.Check(k >= cnt[n] && (k == 0) == (cnt[n] == 0), "%s: variable %s occurs %d times, occurrence count says %d", h.what(), n, cnt[n], k)
		}
	}
	vs := f.NewVarSet(w.VarsOf(h.r.Subset(w.N, 50))...)
	occ2 := h.s.VarOccurrences(vs)
	for _, v := range vs.Content() {
		k, ok := occ2[v]
		c.Check(ok && k == occ[v], "%s: occurrences restricted to some variables give %d, unrestricted %d", h.what(), k, occ[v])
	}
	c.Check(len(occ2) == vs.Size(), "%s: restricted occurrences list %d variables instead of %d", h.what(), len(occ2), vs.Size())
	c.Obs("read-backs", 1)
}
