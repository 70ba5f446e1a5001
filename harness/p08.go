package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// recResult is an own encoding.Result: it records literal lists and the
// auxiliary variables it hands out, without going through formulas.
type recResult struct {
	fac     f.Factory
	clauses [][]f.Literal
	aux     []f.Variable
}

func (r *recResult) AddClause(ls ...f.Literal) {
	r.clauses = append(r.clauses, append([]f.Literal{}, ls...))
}
func (r *recResult) NewAuxVar(s f.AuxVarSort) f.Variable {
	v := r.fac.NewAuxVar(s)
	r.aux = append(r.aux, v)
	return v
}
func (r *recResult) Factory() f.Factory    { return r.fac }
func (r *recResult) Formulas() []f.Formula { return nil }

// Nodes turns the recorded clauses into model nodes.
func (r *recResult) Nodes(w *World) []*Node {
	var out []*Node
	for _, c := range r.clauses {
		n := &Node{K: KOr}
		for _, l := range c {
			p := w.PLit(l)
			n.Ops = append(n.Ops, nLit(p.V, p.Pos))
		}
		if len(n.Ops) == 0 {
			n = &Node{K: KFalse}
		} else if len(n.Ops) == 1 {
			n = n.Ops[0]
		}
		out = append(out, n)
	}
	return out
}

// auxIdx is the set of foreign variables of an encoding.
func auxIdx(w *World, ns []*Node) map[int]bool {
	m := map[int]bool{}
	for _, n := range ns {
		for _, v := range n.Vars() {
			if v >= w.N {
				m[v] = true
			}
		}
	}
	return m
}

func encName(c *encoding.Config) string {
	return fmt.Sprintf("amo=%s amk=%s alk=%s exk=%s pbc=%s bim=%s/%d nest=%d prod=%d com=%d gac=%v nosingle=%v wd=%v", c.AMOEncoder, c.AMKEncoder, c.ALKEncoder, c.EXKEncoder, c.PBCEncoder, c.BimanderGroupSize, c.BimanderFixedGroupSize, c.NestingGroupSize, c.ProductRecursiveBound, c.CommanderGroupSize, c.BinaryMergeUseGAC, c.BinaryMergeNoSupportForSingleBit, c.BinaryMergeUseWatchDog)
}

// encode runs one constraint through the chosen interface and returns nodes.
func encodeConstraint(c *Ctx, w *World, g f.Formula, cfg *encoding.Config, pb bool) ([]*Node, string) {
	r := c.R
	fac := w.F
	inFac := r.P(30)
	var args []*encoding.Config
	if inFac {
		fac.PutConfiguration(cfg)
	} else {
		fac.PutConfiguration(randEncConfig(r)) // must not matter
		args = append(args, cfg)
	}
	if r.P(5) { // anything but the kind of constraint is refused
		rec := &recResult{fac: fac}
		x := pick(r, fac.Verum(), w.Lit(PLit{0, r.Bool()}).AsFormula(), fac.Not(g), fac.And(g, w.Lit(PLit{0, true}).AsFormula()))
		if !pb && r.Bool() {
			x = fac.PBC(f.LE, 4, []f.Literal{w.Lit(PLit{0, true}), fac.Lit("other", false)}, []int{2, 3})
		}
		var err error
		var fs []f.Formula
		switch {
		case pb && r.Bool():
			fs, err = encoding.EncodePBC(fac, x, args...)
		case pb:
			err = encoding.EncodePBCInResult(fac, x, rec, args...)
		case r.Bool():
			fs, err = encoding.EncodeCC(fac, x, args...)
		default:
			err = encoding.EncodeCCInResult(fac, x, rec, args...)
		}
		if x.Sort() != f.SortPBC && (x.Sort() != f.SortCC) || !pb && x.Sort() == f.SortPBC {
			c.Check(err != nil && len(fs) == 0 && len(rec.clauses) == 0, "encoding %s as a constraint: error %v, %d formulas, %d clauses", x.Sprint(fac), err, len(fs), len(rec.clauses))
			c.Obs("other formulas refused", 1)
		}
	}
	if r.P(50) {
		rec := &recResult{fac: fac}
		var err error
		if pb {
			err = encoding.EncodePBCInResult(fac, g, rec, args...)
		} else {
			err = encoding.EncodeCCInResult(fac, g, rec, args...)
		}
		c.Check(err == nil, "encoding %s: %v", g.Sprint(fac), err)
		ns := rec.Nodes(w)
		issued := map[int]bool{}
		for _, v := range rec.aux {
			n, _ := fac.VarName(v)
			i := w.Idx(n)
			c.Check(i >= w.N && !issued[i], "auxiliary variable %s is not fresh", n)
			issued[i] = true
		}
		return ns, "own result"
	}
	var fs []f.Formula
	var err error
	if pb {
		fs, err = encoding.EncodePBC(fac, g, args...)
	} else {
		fs, err = encoding.EncodeCC(fac, g, args...)
	}
	c.Check(err == nil, "encoding %s: %v", g.Sprint(fac), err)
	var ns []*Node
	for _, x := range fs {
		n := w.From(x)
		c.Check(isClauseN(n) || n.K == KTrue, "encoding of %s contains %s", g.Sprint(fac), x.Sprint(fac))
		ns = append(ns, n)
	}
	return ns, "formulas"
}

func isClauseN(n *Node) bool {
	if n.K == KOr {
		for _, o := range n.Ops {
			if o.K != KLit {
				return false
			}
		}
		return true
	}
	return n.K == KLit || n.K == KFalse
}

// sampleProj compares an encoding over many variables with the constraint on
// assignments around its boundary.
func sampleProj(c *Ctx, w *World, ns []*Node, want func(a []bool) bool, gen func(i int) []bool, k int, what string) {
	e := NewRefEnc()
	for _, n := range ns {
		e.Assert(n)
	}
	asm := make([]int32, w.N)
	for i := 0; i < k; i++ {
		a := gen(i)
		for v := range asm {
			asm[v] = rl(e.Var(v), a[v])
		}
		got, _ := e.S.Solve(asm...)
		exp := want(a)
		if got != exp {
			var t []string
			for v, b := range a {
				if b {
					t = append(t, w.name[v])
				}
			}
			c.Failf("%s: assignment with exactly {%s} true: encoding %v, constraint %v", what, strings.Join(t, " "), got, exp)
		}
		if exp {
			c.Obs("boundary assignments accepted", 1)
		} else {
			c.Obs("boundary assignments refused", 1)
		}
	}
}

func randCC(r *Rng, n int) (Cmp, int) {
	cmp := Cmp(r.Intn(5))
	rhs := r.Range(0, n+1)
	if r.P(35) {
		rhs = 1
		cmp = pick(r, LE, EQ)
	} else if r.P(5) {
		rhs = 2
		cmp = LT
	}
	return cmp, rhs
}

func runP08(c *Ctx) {
	r := c.R
	switch x := r.Intn(20); {
	case x < 10:
		p08small(c)
	case x < 14:
		p08large(c)
	default:
		p08solver(c)
	}
}

func p08small(c *Ctx) {
	r := c.R
	nv := r.Range(1, 9)
	w := NewWorld(r, nv, r.P(30))
	k := r.Range(1, 3)
	all := TTConst(nv, true)
	var allNodes []*Node
	seen := map[int]string{}
	for i := 0; i < k; i++ {
		m := r.Range(1, nv)
		cmp, rhs := randCC(r, m)
		n := &Node{K: KCC, Cmp: cmp, Rhs: rhs}
		for _, v := range r.Perm(nv)[:m] {
			n.Lits = append(n.Lits, PLit{v, true})
		}
		if r.P(10) { // a variable listed twice counts twice
			n.Lits = append(n.Lits, n.Lits[r.Intn(m)])
		}
		g := w.Build(n)
		if g.Sort() != f.SortCC {
			c.EqTT(w.TTOf(g), n.TT(nv), "trivial %s", n)
			continue
		}
		cfg := randEncConfig(r)
		var ns []*Node
		var how string
		if r.P(20) {
			ns, how = encodeConstraint(c, w, g, cfg, true)
		} else {
			ns, how = encodeConstraint(c, w, g, cfg, false)
		}
		what := fmt.Sprintf("%s encoded (%s; %s)", n, how, encName(cfg))
		c.Logf("%s", what)
		t := n.TT(nv)
		base := len(auxIdx(w, ns)) == 0
		c.EqTT(ProjTTNodes(nv, base, ns...), t, "%s", what)
		for a := range auxIdx(w, ns) {
			nm := w.Extra[a-w.N]
			if o, dup := seen[a]; dup {
				c.Failf("%s shares auxiliary variable %s with %s", what, nm, o)
			}
			seen[a] = what
		}
		all = all.And(t)
		allNodes = append(allNodes, ns...)
		c.Obs(fmt.Sprintf("encoded %s", cmp), 1)
		if !base {
			c.NT(fmt.Sprint(cmp, rhs, m, encName(cfg)))
			c.Obs("encodings with auxiliaries", 1)
		}
		c.Sample("%s", what)
	}
	if k > 1 {
		c.EqTT(ProjTTNodes(nv, false, allNodes...), all, "conjunction of %d encodings on one factory", k)
	}
}

func p08large(c *Ctx) {
	r := c.R
	hi := 45
	if c.Thorough {
		hi = 120
	}
	nv := r.Range(10, hi)
	cmp, rhs := randCC(r, nv)
	cfg := randEncConfig(r)
	if r.P(15) {
		// sizes at which the groups, bits and recursions of the encodings change
		nv = pick(r, 49, 50, 63, 64, 65, 66, 81, 82, 100, 127, 128, 129, 130, r.Range(46, 140))
		if r.P(60) {
			cmp, rhs = pick(r, LE, EQ), 1
		} else if cmp, rhs = randCC(r, nv); rhs > 1 && nv > 70 {
			rhs = pick(r, 2, 3, 7, 8, 9, 15, nv-2, nv-1)
		}
		if r.P(4) {
			nv, cmp, rhs = r.Range(400, 450), pick(r, LE, LE, EQ), 1
			cfg.AMOEncoder = pick(r, encoding.AMOProduct, encoding.AMOProduct, encoding.AMONested, encoding.AMOCommander, encoding.AMOBinary, encoding.AMOBimander, encoding.AMOLadder, encoding.AMOBest)
			if r.P(60) {
				cfg.AMOEncoder, cfg.ProductRecursiveBound = encoding.AMOProduct, 20
			}
		}
		c.Obs("encodings over more than 45 variables", 1)
	}
	w := NewWorld(r, nv, false)
	vs := w.Vars()
	g := w.F.CC(csorts[cmp], uint32(rhs), vs...)
	what := fmt.Sprintf("sum of %d variables %s %d (%s)", nv, cmp, rhs, encName(cfg))
	c.Logf("%s", what)
	if g.Sort() != f.SortCC {
		c.Obs("trivial", 1)
		return
	}
	ns, _ := encodeConstraint(c, w, g, cfg, false)
	want := func(a []bool) bool {
		s := 0
		for _, b := range a {
			if b {
				s++
			}
		}
		return cmp.Eval(s, rhs)
	}
	gen := func(i int) []bool {
		cnt := rhs + r.Range(-2, 2)
		if r.P(10) {
			cnt = r.Range(0, nv)
		}
		cnt = max(0, min(nv, cnt))
		a := make([]bool, nv)
		p := r.Perm(nv)
		if r.P(30) { // block of neighbours
			st := r.Intn(nv)
			for j := range p {
				p[j] = (st + j) % nv
			}
		}
		for _, v := range p[:cnt] {
			a[v] = true
		}
		return a
	}
	sampleProj(c, w, ns, want, gen, 40, what)
	c.NT("L" + what)
	c.Obs("large encodings", 1)
}

// p08solver: constraints are encoded straight into a solver; membership of
// each base assignment is then asked from that solver under assumptions.
func p08solver(c *Ctx) {
	r := c.R
	nv := r.Range(1, 7)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	fac.PutConfiguration(randEncConfig(r))
	sc := randSatConfig(r)
	s := sat.NewSolver(fac, sc)
	want := TTConst(nv, true)
	var desc []string
	for i := 0; i < r.Range(1, 3); i++ {
		cfg := randEncConfig(r)
		fac.PutConfiguration(cfg)
		m := r.Range(1, nv)
		cmp, rhs := randCC(r, m)
		n := &Node{K: KCC, Cmp: cmp, Rhs: rhs}
		for _, v := range r.Perm(nv)[:m] {
			n.Lits = append(n.Lits, PLit{v, true})
		}
		if r.P(25) {
			n = Gen(r, GenCfg{NV: nv, Depth: 2, MaxOps: 3, Lit: 2, AndW: 2, OrW: 2, CCClean: true, ImplW: 1, EquivW: 1, NotW: 2, CC: 6, MaxCC: nv})
		}
		g := w.Build(n)
		if r.P(30) {
			s.AddProposition(f.NewStandardProposition(g, "p"))
		} else {
			s.Add(g)
		}
		want = want.And(n.TT(nv))
		desc = append(desc, fmt.Sprintf("%s (%s)", g.Sprint(fac), encName(cfg)))
		c.Logf("add %s", desc[i])
		for a := uint64(0); a < 1<<uint(nv); a++ {
			p := sat.Params()
			for v := 0; v < nv; v++ {
				p.Literal(w.Lit(PLit{v, a>>uint(v)&1 == 1}))
			}
			got := s.Call(p).Sat()
			c.Check(got == want.Get(a), "solver (at-most clauses %v, method %s) with %v: assignment %0*b accepted=%v, expected %v", sc.UseAtMostClauses, sc.CNFMethod, desc, nv, bits.Reverse64(a)>>(64-uint(nv)), got, want.Get(a))
		}
		c.Obs("assignments asked on solver", 1<<uint(nv))
		c.Obs("solver encodings", 1)
		if !want.IsFalse() {
			c.NT("S" + desc[i])
		}
	}
	if r.Bool() {
		c.Check(s.Sat() == !want.IsFalse(), "solver with %v: satisfiability", desc)
	}
}

func init() {
	register(&PropDef{ID: "P08", Quick: 24000, Thorough: 600000, Run: runP08,
		Rule: "one case = 1-3 cardinality constraints over up to 9 variables encoded on one factory with random encoder configuration (all assignments decided by an independent SAT procedure), or one constraint over up to 45 (thorough 120) variables judged on 40 assignments around its bound, or constraints encoded into a SAT solver which is then asked for every assignment; non-trivial = distinct constraint/configuration pairs",
		Need: []string{"other formulas refused", "encodings with auxiliaries", "large encodings", "boundary assignments accepted", "boundary assignments refused", "solver encodings", "encoded <", "encoded >="}})
}

func init() {
	probe("cc-below-zero", "P08", func(c *Ctx) {
		w := NewWorldPlain(3, false)
		g := w.F.CC(f.LT, 0, w.Vars()...)
		for i := 0; i < 4; i++ {
			cfg := encoding.DefaultConfig()
			cfg.AMKEncoder = encoding.AMKEncoder(i)
			fs, err := encoding.EncodeCC(w.F, g, cfg)
			c.Check(err == nil, "%v", err)
			c.EqTT(w.ProjTT(fs...), TTConst(3, false), "%s encoded", g.Sprint(w.F))
		}
	})
	probe("card-network-invalid-literals", "P08", func(c *Ctx) {
		for n := 3; n <= 8; n++ {
			for k := 2; k < n; k++ {
				w := NewWorldPlain(n, false)
				cfg := encoding.DefaultConfig()
				cfg.AMKEncoder = encoding.AMKCardinalityNetwork
				fs, err := encoding.EncodeCC(w.F, w.F.CC(f.LE, uint32(k), w.Vars()...), cfg)
				c.Check(err == nil, "%v", err)
				for _, x := range fs {
					c.Check(isClauseN(w.From(x)), "at most %d of %d: clause %s", k, n, x.Sprint(w.F))
				}
			}
		}
	})
	probe("cc-below-zero-sort", "P04", func(c *Ctx) {
		w := NewWorldPlain(2, false)
		vs := w.Vars()
		g := w.F.CC(f.LT, 0, vs...)
		h := w.F.PBC(f.LT, 0, []f.Literal{vs[0].AsLiteral(), vs[1].AsLiteral()}, []int{1, 1})
		c.Check(g == h, "%s exists as two formulas (%s, %s)", g.Sprint(w.F), g.Sort(), h.Sort())
	})
	probe("pbc-encoding-drops-config", "P10", func(c *Ctx) {
		w := NewWorldPlain(12, false)
		cfg := encoding.DefaultConfig()
		cfg.AMOEncoder = encoding.AMOPure
		fs, err := encoding.EncodePBC(w.F, w.F.AMO(w.Vars()...), cfg)
		c.Check(err == nil, "%v", err)
		for _, x := range fs {
			c.Check(w.OnlyBase(w.From(x)), "pure at-most-one encoding contains %s", x.Sprint(w.F))
		}
	})
	probe("incremental-exactly-panics", "P09", func(c *Ctx) {
		w := NewWorldPlain(4, false)
		d, err := encoding.EncodeIncremental(w.F, w.F.CC(f.EQ, 2, w.Vars()...), encoding.ResultForFormula(w.F))
		c.Check(err != nil && d == nil, "no error for an exactly-constraint")
	})
}
