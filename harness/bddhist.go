package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/normalform"
)

// bddHeld is a diagram the user holds together with its meaning.
type bddHeld struct {
	b  *bdd.BDD
	t  TT
	at string
}

type bddBlock struct {
	decl        []int // its variables in the order of its declaration
	first, last int
	fixed       bool
	sub         []*bddBlock
}

// BH drives one kernel through a history of operations.
type BH struct {
	c      *Ctx
	r      *Rng
	w      *World
	k      *bdd.Kernel
	nv     int
	cap    int // variables the kernel has room for
	held   []bddHeld
	known  map[int]bool // variables assigned on the kernel
	order  []int        // expected order (by variable), nil: unknown
	blocks []*bddBlock
	hist   []string
	auto   bool
}

func (h *BH) logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	h.hist = append(h.hist, s)
	h.c.Logf("%s", s)
}

func (h *BH) use(vs ...int) {
	for _, v := range vs {
		if !h.known[v] {
			h.known[v] = true
			if h.order != nil {
				h.order = append(h.order, v)
			}
		}
	}
}

// nodeTT walks the node representation: meaning, reducedness, ordering.
type bddWalk struct {
	h     *BH
	level map[string]int
	tts   map[bdd.Node]TT
	uniq  map[string]bdd.Node
	ids   map[bdd.Node]int
	inner map[string]int
	one   map[bdd.Node]*big.Int
	zero  map[bdd.Node]*big.Int
}

func (x *bddWalk) walk(n bdd.Node, min int) (TT, error) {
	h := x.h
	if !n.InnerNode() {
		if _, ok := x.ids[n]; !ok {
			x.ids[n] = len(x.ids)
			key := n.Label()
			if x.uniq[key] != nil {
				return TT{}, fmt.Errorf("terminal %s exists twice", key)
			}
			x.uniq[key] = n
			b := int64(0)
			if n.Label() == "$true" {
				b = 1
			}
			x.one[n], x.zero[n] = big.NewInt(b), big.NewInt(1-b)
		}
		return TTConst(h.w.N, n.Label() == "$true"), nil
	}
	lv, ok := x.level[n.Label()]
	if !ok {
		return TT{}, fmt.Errorf("node variable %q is not in the variable order", n.Label())
	}
	if lv < min {
		return TT{}, fmt.Errorf("node of variable %s at level %d below a node at level %d", n.Label(), lv, min-1)
	}
	if t, ok := x.tts[n]; ok {
		return t, nil
	}
	lo, err := x.walk(n.Low(), lv+1)
	if err != nil {
		return TT{}, err
	}
	hi, err := x.walk(n.High(), lv+1)
	if err != nil {
		return TT{}, err
	}
	if n.Low() == n.High() {
		return TT{}, fmt.Errorf("node of %s is redundant", n.Label())
	}
	x.ids[n] = len(x.ids)
	key := fmt.Sprintf("%s|%d|%d", n.Label(), x.ids[n.Low()], x.ids[n.High()])
	if x.uniq[key] != nil {
		return TT{}, fmt.Errorf("two nodes of %s with the same children", n.Label())
	}
	x.uniq[key] = n
	x.inner[n.Label()]++
	v := h.w.Idx(n.Label())
	if v >= h.w.N {
		return TT{}, fmt.Errorf("node of foreign variable %s", n.Label())
	}
	tv := TTVar(h.w.N, v)
	t := tv.And(hi).Or(tv.Not().And(lo))
	x.tts[n] = t
	x.one[n] = new(big.Int).Add(x.one[n.Low()], x.one[n.High()])
	x.zero[n] = new(big.Int).Add(x.zero[n.Low()], x.zero[n.High()])
	return t, nil
}

func (h *BH) ord(b *bdd.BDD) map[string]int {
	level := map[string]int{}
	for i, v := range b.VariableOrder() {
		if n, ok := h.w.F.VarName(v); ok && v != 0 {
			if _, dup := level[n]; dup {
				h.c.Failf("variable %s occurs twice in the variable order", n)
			}
			level[n] = i
		}
	}
	return level
}

func (h *BH) orderIdx() []int {
	b := bdd.CompileWithKernel(h.w.F, h.w.F.Verum(), h.k)
	m := h.ord(b)
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return m[ns[i]] < m[ns[j]] })
	var out []int
	for _, n := range ns {
		out = append(out, h.w.Idx(n))
	}
	return out
}

// verify judges one held diagram.
func (h *BH) verify(x bddHeld, deep bool) {
	c := h.c
	level := h.ord(x.b)
	wk := &bddWalk{h, level, map[bdd.Node]TT{}, map[string]bdd.Node{}, map[bdd.Node]int{}, map[string]int{}, map[bdd.Node]*big.Int{}, map[bdd.Node]*big.Int{}}
	root := x.b.NodeRepresentation()
	t, err := wk.walk(root, 0)
	c.Check(err == nil, "%s: diagram is no reduced ordered diagram: %v", x.at, err)
	c.EqTT(t, x.t, "%s: diagram", x.at)
	c.Obs("diagrams verified", 1)
	if !deep {
		return
	}
	inner := 0
	for _, n := range wk.inner {
		inner += n
	}
	c.Check(x.b.NodeCount() == inner, "%s: node count %d, the diagram has %d nodes", x.at, x.b.NodeCount(), inner)
	prof := x.b.VariableProfile()
	for v, n := range prof {
		nm, ok := h.w.F.VarName(v)
		if v == 0 || !ok {
			c.Check(n == 0, "%s: profile has %d nodes of an unknown variable", x.at, n)
			continue
		}
		c.Check(n == wk.inner[nm], "%s: variable profile of %s is %d, the diagram has %d", x.at, nm, n, wk.inner[nm])
	}
	for nm := range wk.inner {
		_, ok := prof[h.w.F.Var(nm)]
		c.Check(ok, "%s: variable profile lacks %s", x.at, nm)
	}
	for i := 0; i < h.r.Range(1, 2); i++ {
		got := x.b.PathCountOne()
		c.Check(got.Cmp(wk.one[root]) == 0, "%s: %v paths to true counted, the diagram has %v", x.at, got, wk.one[root])
		got.Add(got, big.NewInt(7)) // the caller may use the number
		got = x.b.PathCountZero()
		c.Check(got.Cmp(wk.zero[root]) == 0, "%s: %v paths to false counted, the diagram has %v", x.at, got, wk.zero[root])
		got.Add(got, big.NewInt(5))
		got = x.b.NumberOfCNFClauses()
		c.Check(got.Cmp(wk.zero[root]) == 0, "%s: %v CNF clauses counted, the diagram has %v paths to false", x.at, got, wk.zero[root])
		mc := x.b.ModelCount()
		want := big.NewInt(int64(x.t.Count()))
		if h.cap >= h.w.N {
			want.Lsh(want, uint(h.cap-h.w.N))
		} else {
			want.Rsh(want, uint(h.w.N-h.cap))
		}
		c.Check(mc.Cmp(want) == 0, "%s: model count %v, expected %v", x.at, mc, want)
		mc.Add(mc, big.NewInt(3))
	}
	c.Check(x.b.IsTautology() == x.t.IsTrue() && x.b.IsContradiction() == x.t.IsFalse(), "%s: tautology %v, contradiction %v", x.at, x.b.IsTautology(), x.b.IsContradiction())
	c.Obs("counts judged", 1)
}

// verifyAll judges all held diagrams and canonicity.
func (h *BH) verifyAll(deep bool) {
	c := h.c
	byTT := map[string]bddHeld{}
	byIdx := map[int32]bddHeld{}
	for _, x := range h.held {
		h.verify(x, deep)
		key := fmt.Sprint(x.t.w)
		if o, ok := byTT[key]; ok {
			c.Check(o.b.Index == x.b.Index, "equivalent diagrams of (%s) and (%s) are different nodes %d, %d", o.at, x.at, o.b.Index, x.b.Index)
			c.Obs("equivalent diagrams compared", 1)
		}
		byTT[key] = x
		if o, ok := byIdx[x.b.Index]; ok {
			c.Check(o.t.Eq(x.t), "different diagrams of (%s) and (%s) share node %d", o.at, x.at, x.b.Index)
		}
		byIdx[x.b.Index] = x
	}
	ord := h.orderIdx()
	var kn []int
	for v := range h.known {
		kn = append(kn, v)
	}
	c.Check(eqInts(sortedInts(ord), sortedInts(kn)), "variable order %v is no permutation of the kernel's variables %v", ord, sortedInts(kn))
	if h.order != nil {
		c.Check(eqInts(ord, h.order), "variable order is %v, expected %v", ord, h.order)
	}
	h.checkBlocks(ord)
}

func (h *BH) checkBlocks(ord []int) {
	if h.blocks == nil {
		return
	}
	// blocks are given by kernel index; index i is variable h.idx[i] - the
	// engine assigns variable i to index i
	pos := map[int]int{}
	for i, v := range ord {
		pos[v] = i
	}
	var rec func(b *bddBlock)
	rec = func(b *bddBlock) {
		lo, hi := 1<<30, -1
		for v := b.first; v <= b.last; v++ {
			lo, hi = min(lo, pos[v]), max(hi, pos[v])
		}
		h.c.Check(hi-lo == b.last-b.first, "block %d..%d is spread over levels %d..%d in order %v", b.first, b.last, lo, hi, ord)
		if len(b.sub) == 0 {
			for i := 0; i+1 < len(b.decl); i++ {
				h.c.Check(pos[b.decl[i]]+1 == pos[b.decl[i+1]], "variables of block %d..%d without child blocks were reordered: %v", b.first, b.last, ord)
			}
		}
		if b.fixed {
			for i := 0; i+1 < len(b.sub); i++ {
				h.c.Check(pos[b.sub[i].decl[0]] < pos[b.sub[i+1].decl[0]], "children of fixed block %d..%d were reordered: %v", b.first, b.last, ord)
			}
		}
		for _, s := range b.sub {
			rec(s)
		}
	}
	for _, b := range h.blocks {
		rec(b)
	}
	h.c.Obs("block structures judged", 1)
}

func (h *BH) hold(b *bdd.BDD, t TT, at string) {
	x := bddHeld{b, t, at}
	h.verify(x, h.r.P(30))
	h.held = append(h.held, x)
}

func (h *BH) pickHeld() bddHeld {
	if len(h.held) == 0 || h.r.P(3) {
		b := h.r.Bool()
		return bddHeld{bdd.CompileWithKernel(h.w.F, h.w.F.Constant(b), h.k), TTConst(h.w.N, b), fmt.Sprint(b)}
	}
	if h.r.P(40) {
		return h.held[len(h.held)-1-h.r.Intn(min(3, len(h.held)))]
	}
	return h.held[h.r.Intn(len(h.held))]
}

func bddAtoms(n *Node, f func(int)) {
	if n.K == KLit {
		f(n.L.V)
	}
	for _, l := range n.Lits {
		f(l.V)
	}
	for _, o := range n.Ops {
		bddAtoms(o, f)
	}
}

// genBDD draws a formula whose constraints need no auxiliary variables.
func (h *BH) genFormula(depth int) (f.Formula, *Node, bool) {
	r, w := h.r, h.w
	g := stdCfg(r, h.nv)
	g.Depth = r.Range(0, depth)
	if r.P(20) {
		g.CC, g.MaxCC = 1, 4
	}
	n := Gen(r, g)
	if r.P(15) {
		n = clausesNode(GenClauses(r, h.nv, r.Range(1, 5), 1, 3))
	} else if r.P(10) && h.nv >= 2 {
		m := &Node{K: KEquiv, Ops: []*Node{nLit(r.Intn(h.nv), true), nLit(r.Intn(h.nv), true)}}
		for i := 0; i < r.Range(0, 4); i++ {
			m = &Node{K: KEquiv, Ops: []*Node{m, nLit(r.Intn(h.nv), r.Bool())}}
		}
		n = m
	}
	x := w.Build(n)
	// constraints with auxiliary variables: known finding bdd-constraint-auxiliaries
	if hasPB(n) {
		for _, s := range f.SubNodes(w.F, x) {
			if (s.Sort() == f.SortCC || s.Sort() == f.SortPBC) && !w.OnlyBase(w.From(normalform.NNF(w.F, s))) {
				return 0, nil, false
			}
		}
	}
	return x, n, true
}

func (h *BH) compile() {
	x, n, ok := h.genFormula(4)
	if !ok {
		return
	}
	h.useF(x)
	h.logf("compile %s", cut(x.Sprint(h.w.F), 300))
	b := bdd.CompileWithKernel(h.w.F, x, h.k)
	if hasPB(n) && h.cap != len(h.known) {
		h.sync()
	}
	h.hold(b, n.TT(h.w.N), fmt.Sprintf("step %d compile", len(h.hist)))
	h.c.Obs("compilations", 1)
}

// useF assigns the variables of a formula in the order the compiler meets them.
func (h *BH) useF(x f.Formula) {
	n := h.w.From(x)
	if !hasPB(n) {
		bddAtoms(n, func(v int) { h.use(v) })
	}
}

// sync reads the known variables from the kernel.
func (h *BH) sync() {
	h.order = nil
	for _, v := range bdd.CompileWithKernel(h.w.F, h.w.F.Verum(), h.k).VariableOrder() {
		if v != 0 {
			if nm, ok := h.w.F.VarName(v); ok {
				h.use(h.w.Idx(nm))
			}
		}
	}
}

func (h *BH) cancelled() {
	x, n, ok := h.genFormula(4)
	if !ok {
		return
	}
	hd := &CancelAt{N: h.r.Range(1, 12)}
	h.logf("compile with cancellation at %d: %s", hd.N, cut(x.Sprint(h.w.F), 200))
	b, st := bdd.CompileWithKernelAndHandler(h.w.F, x, h.k, hd)
	h.c.Check(st.Success == (hd.Fired == 0), "cancelled %d times, reported success %v", hd.Fired, st.Success)
	h.c.Check(hd.After == 0, "%d events after the cancellation", hd.After)
	if st.Success {
		h.sync()
		h.hold(b, n.TT(h.w.N), fmt.Sprintf("step %d compile with handler", len(h.hist)))
		return
	}
	h.c.Check(st.CancelCause == hd.Cause, "cause is %v, cancelled at %v", st.CancelCause, hd.Cause)
	h.c.Check(b == nil, "cancelled compilation returns a diagram")
	h.sync() // a part of the variables is known now
	h.c.Obs("cancelled compilations", 1)
}

func (h *BH) operate() {
	a, b := h.pickHeld(), h.pickHeld()
	var res *bdd.BDD
	var t TT
	var what string
	switch h.r.Intn(6) {
	case 0:
		res, t, what = a.b.And(b.b), a.t.And(b.t), "and"
	case 1:
		res, t, what = a.b.Or(b.b), a.t.Or(b.t), "or"
	case 2:
		res, t, what = a.b.Implies(b.b), a.t.Not().Or(b.t), "implies"
	case 3:
		res, t, what = a.b.ImpliedBy(b.b), b.t.Not().Or(a.t), "implied by"
	case 4:
		res, t, what = a.b.Equivalence(b.b), a.t.Equiv(b.t), "equivalence"
	case 5:
		res, t, what = a.b.Negate(), a.t.Not(), "negate"
	}
	h.logf("%s of (%s) and (%s)", what, a.at, b.at)
	h.hold(res, t, fmt.Sprintf("step %d %s", len(h.hist), what))
	h.c.Obs("operations", 1)
}

// someVars draws distinct variables the kernel has room for.
func (h *BH) someVars() []int {
	r := h.r
	k := r.Range(0, min(3, h.nv))
	if r.P(10) {
		k = h.nv
	}
	vs := append([]int{}, r.Perm(h.nv)[:k]...)
	if h.cap < h.w.N { // only known ones
		var o []int
		for _, v := range vs {
			if h.known[v] {
				o = append(o, v)
			}
		}
		vs = o
	}
	return vs
}

func (h *BH) quantify() {
	r, w := h.r, h.w
	a := h.pickHeld()
	vs := h.someVars()
	h.use(vs...)
	t := a.t
	switch r.Intn(4) {
	case 0:
		for _, v := range vs {
			t = t.Exists(v)
		}
		h.logf("exists %v of (%s)", vs, a.at)
		h.hold(a.b.Exists(w.VarsOf(vs)...), t, fmt.Sprintf("step %d exists", len(h.hist)))
	case 1:
		for _, v := range vs {
			t = t.Forall(v)
		}
		h.logf("for all %v of (%s)", vs, a.at)
		h.hold(a.b.ForAll(w.VarsOf(vs)...), t, fmt.Sprintf("step %d for all", len(h.hist)))
	case 2:
		var ls []PLit
		for _, v := range vs {
			p := PLit{v, r.Bool()}
			ls = append(ls, p)
			t = t.Cof(v, p.Pos)
		}
		h.logf("restrict %v of (%s)", ls, a.at)
		h.hold(a.b.Restrict(w.Lits(ls)...), t, fmt.Sprintf("step %d restrict", len(h.hist)))
	case 3:
		var ls []PLit
		t = TTConst(w.N, true)
		for _, v := range vs {
			p := PLit{v, r.Bool()}
			ls = append(ls, p)
			x := TTVar(w.N, v)
			if !p.Pos {
				x = x.Not()
			}
			t = t.And(x)
		}
		h.logf("literals %v", ls)
		h.hold(bdd.CompileLiterals(w.Lits(ls), h.k), t, fmt.Sprintf("step %d literals", len(h.hist)))
	}
	h.c.Obs("quantifications", 1)
}

func (h *BH) judgeModel(x bddHeld, m *model.Model, err error, what string, must []int, full bool) uint64 {
	c, w := h.c, h.w
	if x.t.IsFalse() {
		c.Check(err != nil, "%s: %s of a contradiction without an error", x.at, what)
		return 0
	}
	c.Check(err == nil && m != nil, "%s: %s: %v", x.at, what, err)
	mask, val, e := w.LitsAsg(m.Literals)
	c.Check(e == "", "%s: %s: %s", x.at, what, e)
	// every completion is a model
	t := x.t
	for v := 0; v < w.N; v++ {
		if mask>>uint(v)&1 == 1 {
			t = t.Cof(v, val>>uint(v)&1 == 1)
		}
	}
	c.Check(t.IsTrue(), "%s: %s %s is no model", x.at, what, m.Sprint(w.F))
	for _, v := range must {
		c.Check(mask>>uint(v)&1 == 1, "%s: %s %s lacks variable %d", x.at, what, m.Sprint(w.F), v)
	}
	c.Obs("models judged", 1)
	return mask
}

func (h *BH) query() {
	c, r, w := h.c, h.r, h.w
	x := h.pickHeld()
	switch r.Intn(9) {
	case 0:
		m, err := x.b.Model()
		h.judgeModel(x, m, err, "model", nil, false)
	case 1:
		vs := h.someVars()
		h.use(vs...)
		d := r.Bool()
		m, err := x.b.ModelWithVariables(d, w.VarsOf(vs)...)
		h.judgeModel(x, m, err, fmt.Sprintf("model with variables %v", vs), vs, false)
		if err == nil {
			// variables the diagram does not depend on have the default value
			_, val, _ := w.LitsAsg(m.Literals)
			for _, v := range vs {
				if !x.t.Depends(v) {
					c.Check(val>>uint(v)&1 == 1 == d, "%s: model with variables: variable %d has not the default value %v: %s", x.at, v, d, m.Sprint(w.F))
				}
			}
		}
	case 2:
		if len(h.known) == h.cap {
			m, err := x.b.FullModel()
			var all []int
			for v := range h.known {
				all = append(all, v)
			}
			h.judgeModel(x, m, err, "full model", all, true)
		}
	case 3:
		var dep []int
		for v := 0; v < w.N; v++ {
			if x.t.Depends(v) {
				dep = append(dep, v)
			}
		}
		got := w.VarIdxSet(x.b.Support())
		c.Check(eqInts(sortedInts(got), dep), "%s: support %v, the function depends on %v", x.at, got, dep)
		c.Obs("supports judged", 1)
	case 4, 5:
		var vs []int
		for v := range h.known {
			if r.P(60) {
				vs = append(vs, v)
			}
		}
		vs = shuffled(r, sortedInts(vs))
		ms := x.b.ModelEnumeration(w.VarsOf(vs)...)
		pt := x.t
		in := map[int]bool{}
		for _, v := range vs {
			in[v] = true
		}
		for v := 0; v < w.N; v++ {
			if !in[v] {
				pt = pt.Exists(v)
			}
		}
		seen := map[uint64]bool{}
		for _, m := range ms {
			mask, val, e := w.LitsAsg(m.Literals)
			c.Check(e == "", "%s: enumerated model: %s", x.at, e)
			c.Check(len(m.Literals) == len(vs), "%s: enumerated model %s over %v", x.at, m.Sprint(w.F), vs)
			c.Check(!seen[val], "%s: model %s enumerated twice over %v", x.at, m.Sprint(w.F), vs)
			seen[val] = true
			_ = mask
			c.Check(pt.Get(val), "%s: enumerated model %s over %v is none", x.at, m.Sprint(w.F), vs)
		}
		c.Check(len(ms) == pt.Count()>>uint(w.N-len(vs)), "%s: %d models enumerated over %v, expected %d", x.at, len(ms), vs, pt.Count()>>uint(w.N-len(vs)))
		c.Obs("enumerations judged", 1)
	case 6:
		g := x.b.CNF()
		c.EqTT(w.TTOf(g), x.t, "%s: CNF", x.at)
		c.Check(isCNFN(w.From(g)), "%s: CNF %s is none", x.at, cut(g.Sprint(w.F), 200))
		c.Obs("conversions judged", 1)
	case 7:
		g := x.b.DNF()
		c.EqTT(w.TTOf(g), x.t, "%s: DNF", x.at)
		c.Check(isDNFN(w.From(g)), "%s: DNF %s is none", x.at, cut(g.Sprint(w.F), 200))
		c.Obs("conversions judged", 1)
	case 8:
		g := x.b.ToFormula(w.F)
		if r.Bool() {
			g = x.b.ToFormula(w.F, r.Bool())
		}
		c.EqTT(w.TTOf(g), x.t, "%s: formula", x.at)
		c.Obs("conversions judged", 1)
	}
	if r.P(40) {
		h.verify(x, true)
	}
}

func (h *BH) swap() {
	if h.blocks != nil || len(h.known) < 1 {
		return
	}
	var kn []int
	for v := range h.known {
		kn = append(kn, v)
	}
	kn = sortedInts(kn)
	a, b := kn[h.r.Intn(len(kn))], kn[h.r.Intn(len(kn))]
	before := h.orderIdx()
	h.logf("swap variables %d and %d in %v", a, b, before)
	err := h.k.SwapVariables(h.w.vars[a], h.w.vars[b])
	h.c.Check(err == nil, "swapping failed: %v", err)
	if len(h.known) == h.cap {
		for i, v := range before {
			if v == a {
				before[i] = b
			} else if v == b {
				before[i] = a
			}
		}
		h.order = before
	} else {
		h.order = nil
	}
	h.verifyAll(h.r.P(30))
	h.c.Obs("swaps", 1)
}

var bddMethods = []bdd.ReorderingMethod{bdd.ReorderNone, bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderRandom}

// addBlocks declares a random block structure over the identity order.
func (h *BH) addBlocks() {
	r := h.r
	if r.P(40) {
		h.logf("all variables as blocks")
		h.k.AddAllVariablesAsBlock()
		for i := 0; i < h.cap; i++ {
			h.blocks = append(h.blocks, &bddBlock{[]int{i}, i, i, false, nil})
		}
		return
	}
	var gen func(first, last, depth int) []*bddBlock
	gen = func(first, last, depth int) []*bddBlock {
		var out []*bddBlock
		for i := first; i <= last; {
			if r.P(15) {
				i++
				continue
			}
			e := min(last, i+r.Intn(4))
			if depth == 0 && r.P(40) {
				e = min(last, i+r.Intn(h.cap))
			}
			if i == first && e == last && depth > 0 {
				if first == last {
					return nil
				}
				e--
			}
			b := &bddBlock{decl: seqInts(i, e), first: i, last: e, fixed: r.P(25)}
			if e > i && depth < 3 && r.P(70) {
				b.sub = gen(i, e, depth+1)
			}
			out = append(out, b)
			i = e + 1
		}
		return out
	}
	bs := gen(0, h.cap-1, 0)
	if h.swapped() {
		bs = h.levelBlocks()
	}
	var flat []*bddBlock
	var rec func(b *bddBlock)
	rec = func(b *bddBlock) {
		flat = append(flat, b)
		for _, s := range b.sub {
			rec(s)
		}
	}
	for _, b := range bs {
		rec(b)
	}
	for _, b := range shuffled(r, flat) {
		h.logf("block %d..%d fixed %v", b.first, b.last, b.fixed)
		h.k.AddVariableBlock(int32(b.first), int32(b.last), b.fixed)
	}
	if len(bs) > 0 {
		h.blocks = bs
	}
}

func seqInts(a, b int) (out []int) {
	for i := a; i <= b; i++ {
		out = append(out, i)
	}
	return
}

func (h *BH) swapped() bool {
	o := h.orderIdx()
	return !eqInts(o, sortedInts(o))
}

// levelBlocks draws blocks of variables that are neighbours in an order that
// is no longer the initial one.
func (h *BH) levelBlocks() []*bddBlock {
	r := h.r
	ord := h.orderIdx()
	pos := make([]int, len(ord))
	for i, v := range ord {
		pos[v] = i
	}
	var gen func(first, last, depth int) []*bddBlock
	gen = func(first, last, depth int) []*bddBlock {
		var out []*bddBlock
		for i := first; i <= last; {
			var ends []int
			lo, hi := pos[i], pos[i]
			for e := i; e <= last; e++ {
				lo, hi = min(lo, pos[e]), max(hi, pos[e])
				if hi-lo == e-i && !(depth > 0 && i == first && e == last) {
					ends = append(ends, e)
				}
			}
			if len(ends) == 0 || r.P(10) {
				i++
				continue
			}
			e := ends[r.Intn(len(ends))]
			b := &bddBlock{first: i, last: e, fixed: r.P(20)}
			lo = pos[i]
			for v := i; v <= e; v++ {
				lo = min(lo, pos[v])
			}
			b.decl = append(b.decl, ord[lo:lo+e-i+1]...)
			if e > i && depth < 3 && r.P(70) {
				b.sub = gen(i, e, depth+1)
				sort.Slice(b.sub, func(x, y int) bool { return pos[b.sub[x].decl[0]] < pos[b.sub[y].decl[0]] })
			}
			out = append(out, b)
			i = e + 1
		}
		return out
	}
	h.c.Obs("blocks over a changed order", 1)
	return gen(0, len(ord)-1, 0)
}

func (h *BH) reorder() {
	m := pick(h.r, bddMethods...)
	before := h.orderIdx()
	h.logf("reorder %v", m)
	h.k.Reorder(m)
	if h.blocks != nil && m != bdd.ReorderNone {
		h.order = nil
	}
	h.verifyAll(h.r.P(40))
	after := h.orderIdx()
	if !eqInts(before, after) {
		h.c.Obs("reorders that changed the order", 1)
	}
	h.c.Obs("reorders", 1)
}

func runBDD(c *Ctx, reordering bool) {
	r := c.R
	nv := r.Range(1, 7)
	if r.P(6) {
		nv = r.Range(8, 11)
	}
	w := NewWorld(r, nv, r.P(10))
	h := &BH{c: c, r: r, w: w, nv: nv, known: map[int]bool{}}
	h.order = []int{}
	h.cap = nv
	ns := int32(pick(r, 0, 3, 10, nv*5, nv*30, 500))
	cs := int32(pick(r, 0, 1, 5, nv*20, 200))
	mode := r.Intn(3)
	if reordering {
		mode = 2
	}
	switch mode {
	case 0: // capacity, variables assigned as they occur
		h.cap += pick(r, 0, 0, 1, 3)
		h.k = bdd.NewKernel(w.F, int32(h.cap), ns, cs)
	case 1:
		p := r.Perm(nv)
		h.k = bdd.NewKernelWithOrdering(w.F, w.VarsOf(p), ns, cs)
		h.use(p...)
	case 2: // variable i is kernel index i
		var id []int
		for i := 0; i < nv; i++ {
			id = append(id, i)
		}
		h.k = bdd.NewKernelWithOrdering(w.F, w.VarsOf(id), ns, cs)
		h.use(id...)
	}
	h.logf("kernel for %d of %d variables, node size %d, cache size %d, mode %d", h.cap, nv, ns, cs, mode)
	if reordering {
		if r.P(25) {
			for i := 0; i < r.Range(1, 3); i++ {
				h.compile()
				h.swap()
			}
			if r.P(70) {
				h.addBlocks()
			}
		} else if r.P(80) {
			if r.P(30) {
				h.compile()
			}
			h.addBlocks()
		}
		if r.P(50) {
			m := pick(r, bddMethods...)
			n := int32(pick(r, 1, 2, 5, 100, 10000))
			h.logf("automatic reordering %v, at most %d", m, n)
			h.k.ActivateReorderDuringBuild(m, n)
			if h.blocks != nil {
				h.order = nil
			}
			h.auto = true
		}
	}
	h.compile()
	for i := 0; i < r.Range(3, 25); i++ {
		switch y := r.Intn(20); {
		case y < 4:
			h.compile()
		case y < 9:
			h.operate()
		case y < 12:
			h.quantify()
		case y < 16:
			h.query()
		case y < 17 && r.P(40):
			h.cancelled()
		case y < 18 && reordering:
			h.swap()
		case reordering:
			h.reorder()
		default:
			h.operate()
		}
	}
	h.verifyAll(true)
	st := h.k.Statistics()
	if st.GC > 0 {
		c.Obs("histories with garbage collections", 1)
	}
	c.Obs("garbage collections", int(st.GC))
	if st.Nodes > ns+3 && ns > 0 {
		c.Obs("histories with table growth", 1)
	}
	if h.auto && h.blocks != nil && !eqInts(h.orderIdx(), sortedInts(h.orderIdx())) {
		c.Obs("histories with automatic reordering and changed order", 1)
	}
	used := map[string]bool{}
	for _, x := range h.held {
		used[fmt.Sprint(x.t.w)] = true
	}
	if len(used) > 3 {
		c.NT(fmt.Sprint(len(h.held)) + strings.Join(h.hist, ";"))
	}
	c.Sample("%s", strings.Join(h.hist, "; "))
	_ = handler.NopHandler
}

// p19Compile judges the one-shot compilers and orders.
func p19Compile(c *Ctx) {
	r := c.R
	nv := r.Range(1, 7)
	w := NewWorld(r, nv, r.P(10))
	h := &BH{c: c, r: r, w: w, nv: nv, known: map[int]bool{}}
	x, n, ok := h.genFormula(5)
	if !ok {
		c.Skip("constraints with auxiliary variables")
	}
	c.Logf("formula %s", cut(x.Sprint(w.F), 400))
	t := n.TT(nv)
	occ := w.VarIdxSet(f.Variables(w.F, x).Content())
	var b *bdd.BDD
	var st handler.State
	var want []int
	if r.Bool() {
		h.cap = len(occ)
		if r.Bool() {
			b = bdd.Compile(w.F, x)
		} else {
			b, st = bdd.CompileWithHandler(w.F, x, handler.NopHandler)
			c.Check(st.Success, "compilation reports cancellation")
		}
		c.Logf("Compile")
	} else {
		var o []f.Variable
		k := r.Intn(6)
		if k == 4 && !w.OnlyBase(w.From(normalform.NNF(w.F, x))) {
			k = 5
		}
		switch k {
		case 0:
			o = bdd.BFSOrder(w.F, x)
		case 1:
			o = bdd.DFSOrder(w.F, x)
		case 2:
			o = bdd.MaxToMinOrder(w.F, x)
		case 3:
			o = bdd.MinToMaxOrder(w.F, x)
		case 4:
			o = bdd.ForceOrder(w.F, x)
		case 5:
			o = w.VarsOf(r.Perm(nv))
		}
		want = []int{}
		for _, v := range o {
			want = append(want, w.VarIdxSet([]f.Variable{v})...)
		}
		c.Logf("compile with order %v", want)
		h.cap = len(o)
		if r.Bool() {
			b = bdd.CompileWithVarOrder(w.F, x, o)
		} else {
			b, st = bdd.CompileWithVarOrderAndHandler(w.F, x, o, handler.NopHandler)
			c.Check(st.Success, "compilation reports cancellation")
		}
	}
	h.k = b.Kernel
	for _, v := range h.orderIdx() {
		h.known[v] = true
	}
	if want != nil {
		c.Check(eqInts(h.orderIdx(), want), "diagram has order %v, compiled for %v", h.orderIdx(), want)
	} else {
		c.Check(hasPB(n) || eqInts(sortedInts(h.orderIdx()), occ), "diagram has variables %v, the formula %v", h.orderIdx(), occ)
	}
	h.logf("compile")
	h.hold(b, t, "compile")
	h.verifyAll(true)
	for i := 0; i < r.Range(1, 6); i++ {
		if h.cap > 0 && r.P(30) {
			h.quantify()
		} else {
			h.query()
		}
	}
	h.verifyAll(true)
	c.Obs("one-shot compilations", 1)
	c.NT(x.Sprint(w.F))
}

func init() {
	probe("bdd-count-cache", "P19", func(c *Ctx) {
		fac := f.NewFactory()
		a, b, x := fac.Variable("a"), fac.Variable("b"), fac.Variable("x")
		k := bdd.NewKernelWithOrdering(fac, fac.Vars("a", "b", "x"), 100, 100)
		d := bdd.CompileWithKernel(fac, fac.And(b, fac.Or(b, x)), k)
		e := bdd.CompileWithKernel(fac, fac.Equivalence(a, fac.Equivalence(b, x)), k)
		for i := 0; i < 3; i++ {
			c.Check(d.ModelCount().Int64() == 4, "model count %v instead of 4", d.ModelCount())
			c.Check(e.PathCountOne().Int64() == 4, "%v paths to true instead of 4", e.PathCountOne())
			c.Check(e.PathCountZero().Int64() == 4, "%v paths to false instead of 4", e.PathCountZero())
		}
	})
	probe("bdd-empty-literals", "P19", func(c *Ctx) {
		fac := f.NewFactory()
		k := bdd.NewKernel(fac, 2, 100, 100)
		c.Check(bdd.CompileLiterals(nil, k).IsTautology(), "the empty conjunction of literals is no tautology")
	})
	probe("bdd-results-collected", "P20", func(c *Ctx) {
		fac := f.NewFactory()
		var vs []f.Variable
		var ls []f.Formula
		for i := 0; i < 6; i++ {
			vs = append(vs, fac.Var(fmt.Sprintf("v%d", i)))
			ls = append(ls, vs[i].AsFormula())
		}
		for op := 0; op < 3; op++ {
			k := bdd.NewKernelWithOrdering(fac, vs, 20, 20)
			d := bdd.CompileWithKernel(fac, fac.Or(fac.And(ls[0], ls[1], ls[2]), fac.And(ls[1].Negate(fac), ls[3]), fac.And(ls[4], ls[5])), k)
			var e *bdd.BDD
			switch op {
			case 0:
				e = d.Restrict(vs[1].AsLiteral())
			case 1:
				e = d.Exists(vs[0])
			case 2:
				e = d.ForAll(vs[0])
			}
			want := e.ToFormula(fac)
			for i := 0; i < 6; i++ {
				x := fac.Equivalence(ls[i], ls[(i+2)%6])
				for j := 0; j < 6; j++ {
					x = fac.Equivalence(x, fac.And(ls[j], ls[(j+i)%6]))
					bdd.CompileWithKernel(fac, x, k)
				}
			}
			var got f.Formula
			p := caught(func() { got = e.ToFormula(fac) })
			c.Check(p == nil && got == want, "diagram denotes something else after garbage collections (operation %d)", op)
		}
	})
	probe("bdd-block-gap", "P20", func(c *Ctx) {
		fac := f.NewFactory()
		k := bdd.NewKernelWithOrdering(fac, fac.Vars("a", "b", "c", "d", "e"), 100, 100)
		k.AddVariableBlock(0, 0, false)
		k.AddVariableBlock(2, 4, false)
		d := bdd.CompileWithKernel(fac, fac.Variable("b"), k)
		bdd.CompileLiterals([]f.Literal{fac.Lit("b", true), fac.Lit("d", false)}, k)
		k.Reorder(bdd.ReorderWin2)
		pos := map[string]int{}
		for i, v := range d.VariableOrder() {
			n, _ := fac.VarName(v)
			pos[n] = i
		}
		c.Check(pos["d"] == pos["c"]+1 && pos["e"] == pos["d"]+1, "block c..e was torn apart: %v", pos)
	})
	probe("bdd-blocks-after-swap", "P20", func(c *Ctx) {
		for seed := 0; seed < 40; seed++ {
			fac := f.NewFactory()
			vs := fac.Vars("a", "b", "c", "d")
			k := bdd.NewKernelWithOrdering(fac, vs, 100, 100)
			d := bdd.CompileWithKernel(fac, fac.Or(fac.And(vs[0].AsFormula(), vs[2].AsFormula()), fac.And(vs[1].AsFormula(), vs[3].AsFormula())), k)
			k.SwapVariables(vs[0], vs[1])
			k.SwapVariables(vs[0], vs[2]) // b c a d
			k.AddVariableBlock(0, 2, false)
			k.AddVariableBlock(3, 3, false)
			k.Reorder(bdd.ReorderRandom)
			pos := map[string]int{}
			for i, v := range d.VariableOrder() {
				n, _ := fac.VarName(v)
				pos[n] = i
			}
			c.Check(pos["c"] == pos["b"]+1 && pos["a"] == pos["c"]+1, "block of b, c, a was reordered inside: %v", pos)
		}
	})
	for kind, id := range []string{"bdd-negation-reorder", "bdd-quantification-reorder", "bdd-reorder-references"} {
		probe(id, "P20", func(c *Ctx) {
			for seed := 0; seed < 400; seed++ {
				r := NewRng(uint64(seed), id, seed)
				nv := r.Range(4, 6)
				w := NewWorld(r, nv, false)
				h := &BH{c: c, r: r, w: w, nv: nv, known: map[int]bool{}, cap: nv}
				h.k = bdd.NewKernelWithOrdering(w.F, w.Vars(), 5, 20)
				for v := 0; v < nv; v++ {
					h.use(v)
				}
				h.k.AddAllVariablesAsBlock()
				h.order = nil
				if kind < 2 {
					h.k.ActivateReorderDuringBuild(bdd.ReorderRandom, 10000)
				}
				for i := 0; i < 10; i++ {
					a, b, x := r.Intn(nv), r.Intn(nv), r.Intn(nv)
					n := &Node{K: KEquiv, Ops: []*Node{nLit(a, r.Bool()), nOr(nLit(b, r.Bool()), nLit(x, r.Bool()))}}
					d := bdd.CompileWithKernel(w.F, w.Build(n), h.k)
					h.hold(d, n.TT(nv), "compile")
					switch kind {
					case 0:
						h.hold(d.Negate(), n.TT(nv).Not(), "negate")
					case 1:
						y := h.pickHeld()
						h.hold(y.b.Exists(w.vars[a]), y.t.Exists(a), "exists")
						h.hold(y.b.Restrict(w.vars[b].AsLiteral()), y.t.Cof(b, true), "restrict")
					default:
						y := h.pickHeld()
						h.hold(y.b.And(d), y.t.And(n.TT(nv)), "and")
						if r.P(20) {
							h.k.Reorder(bdd.ReorderRandom)
						}
					}
				}
				h.verifyAll(false)
			}
		})
	}
	probe("bdd-constraint-auxiliaries", "P19", func(c *Ctx) {
		fac := f.NewFactory()
		x := fac.CC(f.LE, 2, fac.Vars("a", "b", "c", "d")...)
		var n int64
		p := caught(func() { n = bdd.Compile(fac, x).ModelCount().Int64() })
		c.Check(p == nil && n == 11, "compiling %s: %v, model count %d instead of 11", x.Sprint(fac), p, n)
	})
	register(&PropDef{ID: "P19", Quick: 120000, Thorough: 1500000,
		Run: func(c *Ctx) {
			if c.R.P(30) {
				p19Compile(c)
			} else {
				runBDD(c, false)
			}
		},
		Rule: "histories of compilations, operations, quantifications, restrictions and queries on one kernel with tiny to large node tables and caches; every diagram the user holds is walked node by node (truth table, ordered, reduced, canonical), counts, models, support, enumerations and conversions compared with the truth table",
		Need: []string{"diagrams verified", "equivalent diagrams compared", "operations", "quantifications", "models judged", "supports judged", "enumerations judged", "conversions judged", "counts judged", "garbage collections", "histories with table growth", "cancelled compilations", "one-shot compilations"},
	})
	register(&PropDef{ID: "P20", Quick: 100000, Thorough: 1500000,
		Run:  func(c *Ctx) { runBDD(c, true) },
		Rule: "histories of diagram operations mixed with variable swaps, explicit reorders of every method, random nested block structures and automatic reordering during construction; all held diagrams walked after every reorder, order a permutation, blocks intact",
		Need: []string{"diagrams verified", "equivalent diagrams compared", "operations", "quantifications", "swaps", "reorders", "reorders that changed the order", "block structures judged", "garbage collections", "histories with table growth", "histories with automatic reordering and changed order"},
	})
}
