package main

import (
	"fmt"
	"math/big"
	"math/bits"

	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
)

// dnnfWalk judges a compiled formula node by node: negation normal form,
// decomposable conjunctions, contradictory disjuncts; it counts models itself.
type dnnfWalk struct {
	c    *Ctx
	w    *World
	txt  string
	vars map[f.Formula]map[int]bool
	tts  *ttm // nil: contradictions are judged by the reference solver
	enc  *RefEnc
	lit  map[f.Formula]int32
	cnt  map[f.Formula]*big.Int
	or   int
	and  int
}

func newDnnfWalk(c *Ctx, w *World, txt string) *dnnfWalk {
	return &dnnfWalk{c: c, w: w, txt: txt, vars: map[f.Formula]map[int]bool{}, lit: map[f.Formula]int32{}, cnt: map[f.Formula]*big.Int{}}
}

func (d *dnnfWalk) walk(g f.Formula) map[int]bool {
	if v, ok := d.vars[g]; ok {
		return v
	}
	c, w := d.c, d.w
	vs := map[int]bool{}
	one := big.NewInt(1)
	switch g.Sort() {
	case f.SortTrue:
		d.cnt[g] = one
	case f.SortFalse:
		d.cnt[g] = big.NewInt(0)
	case f.SortLiteral:
		vs[w.From(g).L.V] = true
		d.cnt[g] = one
	case f.SortAnd, f.SortOr:
		ops, ok := w.F.NaryOperands(g)
		c.Check(ok, "%s: operands of %d unreadable", d.txt, g)
		var sub []map[int]bool
		for _, o := range ops {
			sub = append(sub, d.walk(o))
			for v := range d.vars[o] {
				if g.Sort() == f.SortAnd && vs[v] {
					c.Failf("%s: conjunction is not decomposable, several operands contain %s: %s", d.txt, w.nameOf(v), d.show(g, 400))
				}
			}
			for v := range d.vars[o] {
				vs[v] = true
			}
		}
		n := big.NewInt(0)
		if g.Sort() == f.SortAnd {
			d.and++
			n.SetInt64(1)
			for _, o := range ops {
				n.Mul(n, d.cnt[o])
			}
		} else {
			d.or++
			for i, o := range ops {
				n.Add(n, new(big.Int).Lsh(d.cnt[o], uint(len(vs)-len(sub[i]))))
				for _, p := range ops[i+1:] {
					c.Check(d.contradict(o, p), "%s: disjunction is not deterministic, two operands have a common model: %s  and  %s", d.txt, d.show(o, 300), d.show(p, 300))
				}
			}
		}
		d.cnt[g] = n
	default:
		c.Failf("%s: operator %s in the compiled formula %s", d.txt, g.Sort(), d.show(g, 400))
	}
	d.vars[g] = vs
	return vs
}

// show prints formulas that are not too large (shared nodes are printed repeatedly).
func (d *dnnfWalk) show(g f.Formula, n int) string {
	if d.or+d.and > 25 {
		return "(large)"
	}
	return cut(g.Sprint(d.w.F), n)
}

func (d *dnnfWalk) contradict(a, b f.Formula) bool {
	if d.tts != nil {
		return d.tts.of(a).And(d.tts.of(b)).IsFalse()
	}
	ok, _ := d.enc.S.Solve(d.encode(a), d.encode(b))
	return !ok
}

// encode is a literal equivalent to a node, shared nodes are encoded once.
func (d *dnnfWalk) encode(g f.Formula) int32 {
	if l, ok := d.lit[g]; ok {
		return l
	}
	var l int32
	switch g.Sort() {
	case f.SortAnd, f.SortOr:
		ops, _ := d.w.F.NaryOperands(g)
		var ls []int32
		for _, o := range ops {
			x := d.encode(o)
			if g.Sort() == f.SortAnd {
				x ^= 1
			}
			ls = append(ls, x)
		}
		l = d.enc.orLit(ls...)
		if g.Sort() == f.SortAnd {
			l ^= 1
		}
	default:
		l = d.enc.Lit(d.w.From(g))
	}
	d.lit[g] = l
	return l
}

// proj is the set of base assignments extending to models of g.
func (d *dnnfWalk) proj(nv int, g f.Formula) TT {
	if d.tts != nil {
		return d.tts.of(g)
	}
	t := NewTT(nv)
	x := d.encode(g)
	asm := make([]int32, nv+1)
	asm[nv] = x
	for a := uint64(0); a < 1<<uint(nv); a++ {
		for v := 0; v < nv; v++ {
			asm[v] = rl(d.enc.Var(v), a>>uint(v)&1 == 1)
		}
		if ok, _ := d.enc.S.Solve(asm...); ok {
			t.Set(a)
		}
	}
	return t
}

func (w *World) nameOf(v int) string {
	if v < w.N {
		return w.name[v]
	}
	return w.Extra[v-w.N]
}

// p21World prepares a factory with a random configuration and history.
func p21World(c *Ctx, nv int) *World {
	r := c.R
	w := NewWorld(r, nv, r.P(20))
	w.F.PutConfiguration(randEncConfig(r))
	if r.P(50) {
		cc := normalform.DefaultCNFConfig()
		cc.Algorithm = pick(r, normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced, normalform.CNFAdvanced)
		cc.FallbackAlgorithmForAdvancedEncoding = pick(r, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum)
		if cc.Algorithm == normalform.CNFAdvanced {
			cc.CreatedClauseBoundary = pick(r, 0, 1, 4, 20)
			cc.DistributionBoundary = pick(r, -1, 0, 2)
		}
		cc.AtomBoundary = pick(r, 0, 1, 3, 12)
		w.F.PutConfiguration(cc)
	}
	return w
}

// compileDNNF compiles, possibly after cancelled attempts.
func compileDNNF(c *Ctx, w *World, g f.Formula) *dnnf.DNNF {
	r := c.R
	for r.P(15) {
		h := &CancelAt{N: r.Range(1, 20)}
		d, st := dnnf.CompileWithHandler(w.F, g, h)
		c.Check(st.Success == (h.Fired == 0), "cancelled %d but success %v", h.Fired, st.Success)
		if !st.Success {
			c.Check(d == nil, "cancelled compilation returned a DNNF")
			c.Obs("cancelled compilations", 1)
		} else {
			return d
		}
	}
	if r.P(50) {
		d, st := dnnf.CompileWithHandler(w.F, g, handler.NopHandler)
		c.Check(st.Success, "compilation not successful without a cancelling handler")
		return d
	}
	return dnnf.Compile(w.F, g)
}

func p21Small(c *Ctx) {
	r := c.R
	nv := r.Range(1, 9)
	w := p21World(c, nv)
	fac := w.F
	for k := r.Range(1, 3); k > 0; k-- {
		var n *Node
		switch r.Intn(10) {
		case 0, 1, 2:
			n = clausesNode(GenClauses(r, nv, r.Range(1, 3*nv), 1, 4))
		case 3, 4:
			n = clausesNode(GenClauses(r, nv, r.Range(nv, 4*nv), 2, 3))
		case 5: // components over disjoint variables and shared ones
			p := r.Perm(nv)
			n = nTrueConst()
			for i := 0; i < r.Range(1, 4); i++ {
				a := r.Intn(nv)
				s := p[a:min(nv, a+r.Range(1, 5))]
				n = nAnd(n, mapVars(clausesNode(GenClauses(r, len(s), r.Range(1, 6), 1, 3)), s))
			}
		case 6:
			g := stdCfg(r, nv)
			g.CC, g.PB, g.MaxCC, g.Depth = 3, 1, 4, r.Range(0, 2)
			n = Gen(r, g)
		default:
			g := stdCfg(r, nv)
			g.Depth = r.Range(0, 4)
			n = Gen(r, g)
		}
		if c.Idx%3 != 0 && n.HasPB() {
			continue
		}
		g := w.Build(n)
		if fac0 := factSize(n, true, true); fac0 > 3000 {
			continue
		}
		if r.P(30) && factSize(n, true, false) < 2000 {
			pollute(c, w, r, []f.Formula{g}, func(x f.Formula) bool { return !hasPB(w.From(x)) }, r.Range(1, 3))
		}
		txt := cut(g.Sprint(fac), 500)
		c.Logf("compile %s", txt)
		d := compileDNNF(c, w, g)
		c.Check(d.Fac == fac, "DNNF of %s names another factory", txt)
		t := w.From(g).TT(nv)
		for _, v := range f.Variables(fac, d.Formula).Content() {
			w.Idx(mustName(w, v))
		}
		total := w.N + len(w.Extra)
		walk := newDnnfWalk(c, w, "DNNF of "+txt)
		if total == nv {
			walk.tts = &ttm{w, map[f.Formula]TT{}}
		} else {
			walk.enc = NewRefEnc()
		}
		vs := walk.walk(d.Formula)
		// original variables: all of the formula, all of the compiled one
		orig := map[int]bool{}
		for _, v := range d.OriginalVars.Content() {
			orig[w.Idx(mustName(w, v))] = true
		}
		for v := range vs {
			c.Check(orig[v], "DNNF of %s: variable %s of the result is no original variable", txt, w.nameOf(v))
		}
		for _, v := range w.From(g).Vars() {
			c.Check(orig[v], "DNNF of %s: variable %s of the formula is no original variable", txt, w.nameOf(v))
		}
		aux := 0
		for v := range orig {
			if v >= nv {
				aux++
			} else {
				found := false
				for _, x := range w.From(g).Vars() {
					found = found || x == v
				}
				c.Check(found, "DNNF of %s: %s is named an original variable", txt, w.nameOf(v))
			}
		}
		c.EqTT(walk.proj(nv, d.Formula), t, "DNNF of %s = %s", txt, walk.show(d.Formula, 500))
		// count: models over the original variables
		own := new(big.Int).Lsh(walk.cnt[d.Formula], uint(len(orig)-len(vs)))
		var got *big.Int
		for i := 0; i < 2; i++ {
			got = d.ModelCount()
			c.Check(got.Cmp(own) == 0, "DNNF of %s: model count (call %d) %v, counted on the compiled formula %v", txt, i, got, own)
			if r.Bool() {
				got = new(big.Int).Set(got)
				d.ModelCount().Add(d.ModelCount(), big.NewInt(7)) // results belong to the caller
			}
		}
		if !n.HasPB() {
			occ := len(w.From(g).Vars())
			want := big.NewInt(int64(t.Count() >> uint(nv-occ)))
			c.Check(got.Cmp(want) == 0, "DNNF of %s: model count %v, truth table %v", txt, got, want)
			c.Obs("counts against truth tables", 1)
		}
		if aux > 0 {
			c.Obs("compilations with auxiliary variables", 1)
		}
		c.Obs("disjunctions judged", walk.or)
		c.Obs("conjunctions judged", walk.and)
		if walk.or > 0 {
			c.NT(txt)
		}
		c.Sample("%s -> %s", cut(txt, 150), walk.show(d.Formula, 200))
	}
}

func mustName(w *World, v f.Variable) string {
	n, ok := w.F.VarName(v)
	if !ok {
		panic(Violation{"variable unknown to its factory"})
	}
	return n
}

// p21Big compiles clause sets of small width over many variables.
func p21Big(c *Ctx) {
	r := c.R
	nv := r.Range(10, 40)
	if r.Bool() {
		nv = r.Range(10, 22)
	}
	if c.Thorough && r.P(30) {
		nv = r.Range(10, 60)
	}
	wide := r.P(6)
	if wide { // several words of a bit set
		nv = pick(r, 63, 64, 65, 66, r.Range(60, 140))
		c.Obs("compilations over 60 to 140 variables", 1)
	}
	w := p21World(c, nv)
	var cls [][]PLit
	shape := r.Intn(4)
	win := r.Range(3, 6)
	if wide {
		shape, win = pick(r, 0, 0, 2), 3
	}
	for i := 0; i < int(float64(nv)*(0.6+float64(r.Intn(20))/10)); i++ {
		var vs []int
		switch shape {
		case 0, 1: // chain, ring
			a := r.Intn(nv)
			for j := 0; j < win; j++ {
				x := a + j
				if shape == 1 {
					x %= nv
				}
				if x < nv {
					vs = append(vs, x)
				}
			}
		case 2: // tree
			x := r.Intn(nv)
			vs = []int{x, 2*x + 1, 2*x + 2, (x - 1) / 2}
		default: // grid of width 3
			x := r.Intn(nv)
			vs = []int{x, x + 1, x + 3, x + 4}
		}
		m := map[int]bool{}
		var cl []PLit
		for _, v := range shuffled(r, vs) {
			if v >= 0 && v < nv && !m[v] && len(cl) < 4 && (len(cl) < 2 || r.P(60)) {
				m[v] = true
				cl = append(cl, PLit{v, r.Bool()})
			}
		}
		if len(cl) > 0 {
			cls = append(cls, cl)
		}
	}
	if r.P(30) { // glue some components
		a, b := r.Intn(nv), r.Intn(nv)
		if a != b {
			cls = append(cls, []PLit{{a, r.Bool()}, {b, r.Bool()}})
		}
	}
	n := clausesNode(cls)
	if n.K != KAnd {
		return
	}
	g := w.Build(n)
	txt := fmt.Sprintf("%d clauses over %d variables", len(cls), nv)
	c.Logf("%s", g.Sprint(w.F))
	d := compileDNNF(c, w, g)
	walk := newDnnfWalk(c, w, "DNNF of "+txt)
	walk.enc = NewRefEnc()
	vs := walk.walk(d.Formula)
	x := walk.encode(d.Formula)
	e := walk.enc
	// neither direction of the equivalence fails
	for _, cl := range cls {
		asm := []int32{x}
		for _, l := range cl {
			asm = append(asm, e.PL(l)^1)
		}
		ok, _ := e.S.Solve(asm...)
		c.Check(!ok, "DNNF of %s has a model violating clause %v", txt, cl)
	}
	e.Assert(n)
	ok, _ := e.S.Solve(x ^ 1)
	c.Check(!ok, "DNNF of %s misses a model", txt)
	occ := w.From(g).Vars() // the constructor may have simplified the clauses
	orig := w.VarIdxSet(d.OriginalVars.Content())
	own := new(big.Int).Lsh(walk.cnt[d.Formula], uint(len(orig)-len(vs)))
	if walk.w.OnlyBase(w.From(d.Formula)) {
		c.Check(len(orig) >= len(occ), "DNNF of %s has %d original variables, formula %d", txt, len(orig), len(occ))
	}
	got := d.ModelCount()
	c.Check(got.Cmp(own) == 0, "DNNF of %s: model count %v, counted on the compiled formula %v", txt, got, own)
	c.Check(got.Cmp(d.ModelCount()) == 0, "DNNF of %s: second model count differs", txt)
	c.Obs("large compilations", 1)
	c.Obs("disjunctions judged", walk.or)
	if walk.or > 0 {
		c.Obs("log2 of large counts", bits.Len64(uint64(max(0, own.BitLen()))))
		c.NT(txt + own.String())
	}
}

func runP21(c *Ctx) {
	if c.Idx%8 == 0 {
		p21Big(c)
		return
	}
	p21Small(c)
}

func init() {
	register(&PropDef{ID: "P21", Quick: 40000, Thorough: 600000, Run: runP21,
		Rule: "one case = up to three random formulas (clause sets, components, nested operators, constraints) or one structured clause set of 10-60 variables compiled on a factory with random configuration and history, sometimes after cancelled attempts; every node of the result is judged (negation normal form, decomposable, deterministic), the result compared with the truth table or by the reference solver, and counted independently; non-trivial = distinct formulas whose result contains disjunctions",
		Need: []string{"disjunctions judged", "conjunctions judged", "counts against truth tables", "compilations with auxiliary variables", "cancelled compilations", "large compilations"}})
	for i, txt := range []string{
		"(~x16 | ~x7 | ~x8) & (~x2 | ~x13 | x10 | ~x1) & (~x0 | x5 | ~x3 | x17) & (~x9 | ~x1 | ~x10 | x13) & (~x9 | x4 | x7 | x14) & (~x6 | x13 | x3 | x2) & (x5 | x0 | ~x11 | x17) & (x9 | x2 | x1 | ~x13) & (x16 | x0 | ~x5 | ~x15) & (x8 | ~x10 | ~x4 | ~x14) & (x0 | ~x3 | x5 | x11) & (x4 | x8 | x10 | ~x9) & (x7 | ~x4 | x8 | ~x16) & (x5 | x17 | ~x15 | ~x12) & (x6 | x12 | ~x3 | x0) & (x0 | x6 | ~x3) & (~x2 | x11 | x3 | x1) & (~x1 | ~x2 | x4 | ~x9) & (x14 | x10 | ~x4 | x9) & (~x12 | x2 | x0) & (~x6 | x3 | x12 | x0) & (~x5 | x7 | x0 | x16) & (~x8 | x7 | ~x16 | x14) & (~x0 | x17 | ~x15 | x16) & (x10 | x9 | ~x6 | x1) & (~x17 | x15 | ~x8 | ~x14) & (x8 | ~x7 | ~x15 | x17) & (x16 | ~x5 | ~x17 | x0)",
		"(~x14 | ~x16) & (x11 | x5 | ~x21) & (x4 | ~x17 | x2 | x7) & (x5 | x21 | ~x13) & (~x17 | x11 | x0 | x4) & (x2 | ~x21 | x14) & (x20 | ~x9 | x1 | x12) & (x4 | ~x17 | ~x2) & (x11 | x5 | x21 | ~x13) & (x16 | x2 | ~x18 | x14) & (~x19 | x8) & (~x6 | x10 | ~x13 | ~x1) & (~x14 | ~x4 | x21) & (x8 | x3 | ~x20 | ~x19) & (x5 | x13) & (x14 | x18 | x7) & (x3 | ~x15 | ~x12) & (x14 | ~x16) & (x2 | ~x4 | ~x17) & (x11 | ~x0 | x4) & (~x20 | ~x19 | ~x9)",
	} {
		probe(fmt.Sprintf("dnnf-component-literals-%d", i), "P21", func(c *Ctx) {
			for k := 0; k < 300; k++ {
				w := NewWorldPlain(0, false)
				for _, v := range c.R.Perm(22) {
					w.F.Variable(fmt.Sprintf("x%d", v))
				}
				g, err := parser.New(w.F).Parse(txt)
				c.Check(err == nil, "%v", err)
				for v := 0; v < 22; v++ {
					w.idx[fmt.Sprintf("x%d", v)] = v
					w.name = append(w.name, fmt.Sprintf("x%d", v))
				}
				w.N = 22
				d := dnnf.Compile(w.F, g)
				walk := newDnnfWalk(c, w, "DNNF of "+txt)
				walk.enc = NewRefEnc()
				walk.walk(d.Formula)
				x := walk.encode(d.Formula)
				for _, op := range w.F.Operands(g) {
					ok, _ := walk.enc.S.Solve(x, walk.encode(op)^1)
					c.Check(!ok, "DNNF has a model violating clause %s", op.Sprint(w.F))
				}
				for _, op := range w.F.Operands(g) {
					walk.enc.S.Add(walk.encode(op))
				}
				ok, _ := walk.enc.S.Solve(x ^ 1)
				c.Check(!ok, "DNNF misses a model of %s", txt)
			}
		})
	}
	probe("dnnf-tautological-clause", "P21", func(c *Ctx) {
		w := NewWorldPlain(3, true)
		a, b, d := nLit(0, true), nLit(1, true), nLit(2, false)
		n := &Node{K: KEquiv, Ops: []*Node{{K: KEquiv, Ops: []*Node{nOr(nNot(a), a, d), nAnd(nNot(b), a, b)}}, b}}
		g := w.Build(n)
		x := dnnf.Compile(w.F, g)
		walk := newDnnfWalk(c, w, "DNNF of "+g.Sprint(w.F))
		walk.tts = &ttm{w, map[f.Formula]TT{}}
		walk.walk(x.Formula)
		got := x.ModelCount()
		c.Check(got.Int64() == int64(n.TT(3).Count()), "DNNF of %s: model count %v, truth table %d", g.Sprint(w.F), got, n.TT(3).Count())
	})
}
