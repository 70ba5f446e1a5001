package main

import (
	"fmt"
	"math"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/randomizer"
)

// p30config draws a configuration with which every generator terminates: some
// atom is not a constant, there are several variables, and some
// weight of conjunctions or disjunctions is positive.
func p30config(r *Rng) *randomizer.Config {
	cfg := randomizer.DefaultConfig()
	cfg.Seed = int64(r.Intn(1 << uint(r.Range(1, 60))))
	if r.P(10) {
		cfg.Seed = -cfg.Seed
	}
	cfg.NumVars = r.Range(4, 30)
	if r.P(20) {
		cfg.NumVars = pick(r, 9, 10, 11, 99, 100, 101, 120)
	}
	weight := func() float64 {
		if r.P(35) {
			return 0
		}
		return pick(r, 0.1, 0.5, 1, 1, 2, 5)
	}
	cfg.WeightConstant = weight() / 4
	cfg.WeightPosLit, cfg.WeightNegLit = weight(), weight()
	if cfg.WeightPosLit+cfg.WeightNegLit == 0 {
		if r.P(50) {
			cfg.WeightPosLit = 1
		} else {
			cfg.WeightNegLit = 1
		}
	}
	if r.P(50) {
		cfg.WeightPBC, cfg.WeightCC, cfg.WeightAMO, cfg.WeightEXO = weight(), weight(), weight(), weight()
	}
	cfg.WeightOr, cfg.WeightAnd, cfg.WeightNot, cfg.WeightImpl, cfg.WeightEquiv = weight(), weight(), weight(), weight(), weight()
	if cfg.WeightOr+cfg.WeightAnd == 0 { // Not retries until its operand is no literal
		if r.P(50) {
			cfg.WeightOr = 1
		} else {
			cfg.WeightAnd = 1
		}
	}
	cfg.MaximumOpsAnd, cfg.MaximumOpsOr = r.Range(2, 7), r.Range(2, 7)
	cfg.MaximumOpsCC, cfg.MaximumOpsPBC, cfg.MaximumCoeffPBC = r.Range(2, 7), r.Range(2, 7), r.Range(1, 12)
	cfg.WeightPBCCoeffPos, cfg.WeightPBCCoeffNeg = weight(), weight()
	if cfg.WeightPBCCoeffPos+cfg.WeightPBCCoeffNeg == 0 {
		cfg.WeightPBCCoeffPos = 1
	}
	ws := []*float64{&cfg.WeightPBCLE, &cfg.WeightPBCLT, &cfg.WeightPBCGE, &cfg.WeightPBCGT, &cfg.WeightPBCEQ}
	for _, w := range ws {
		*w = weight()
	}
	*ws[r.Intn(5)] = 1
	return cfg
}

type p30call struct {
	Kind  int
	Depth int
	N     int
}

var p30kinds = []string{"Formula", "Constant", "Variable", "Literal", "Atom", "Not", "Impl", "Equiv", "And", "Or", "CC", "AMO", "EXO", "PBC", "ConstraintSet"}

func (k p30call) String() string {
	return fmt.Sprintf("%s(depth %d, n %d)", p30kinds[k.Kind], k.Depth, k.N)
}

func (k p30call) run(g *randomizer.FormulaRandomizer) []f.Formula {
	switch p30kinds[k.Kind] {
	case "Formula":
		return []f.Formula{g.Formula(k.Depth)}
	case "Constant":
		return []f.Formula{g.Constant()}
	case "Variable":
		return []f.Formula{g.Variable().AsFormula()}
	case "Literal":
		return []f.Formula{g.Literal().AsFormula()}
	case "Atom":
		return []f.Formula{g.Atom()}
	case "Not":
		return []f.Formula{g.Not(k.Depth)}
	case "Impl":
		return []f.Formula{g.Impl(k.Depth)}
	case "Equiv":
		return []f.Formula{g.Equiv(k.Depth)}
	case "And":
		return []f.Formula{g.And(k.Depth)}
	case "Or":
		return []f.Formula{g.Or(k.Depth)}
	case "CC":
		return []f.Formula{g.CC()}
	case "AMO":
		return []f.Formula{g.AMO()}
	case "EXO":
		return []f.Formula{g.EXO()}
	case "PBC":
		return []f.Formula{g.PBC()}
	default:
		return g.ConstraintSet(k.N, k.Depth)
	}
}

func runP30(c *Ctx) {
	if c.R.P(15) {
		p30weights(c)
		return
	}
	r := c.R
	cfg := p30config(r)
	names := []string{}
	own := r.P(40)
	if own {
		cfg.NumVars = pick(r, 0, 25, 3)
		for i := 0; i < r.Range(4, 12); i++ {
			names = append(names, fmt.Sprintf("x%d", i*7%12))
		}
	}
	how := r.Intn(3)
	if how == 2 { // NewWithSeed: default configuration
		s := cfg.Seed
		cfg, own = randomizer.DefaultConfig(), false
		cfg.Seed = s
	}
	conserve := r.P(30)
	logCfg := *cfg
	c.Logf("config %+v own variables %v via %d conserve %v", logCfg, names, how, conserve)
	calls := []p30call{}
	maxDepth := r.Range(1, 3)
	if r.P(5) {
		maxDepth = 5
	}
	if how == 2 {
		maxDepth = min(maxDepth, 2)
	}
	for i := r.Range(1, 12); i > 0; i-- {
		calls = append(calls, p30call{r.Intn(len(p30kinds)), r.Range(0, maxDepth), r.Range(0, 4)})
	}
	mk := func(fac f.Factory) *randomizer.FormulaRandomizer {
		cc := *cfg
		if own {
			cc.Variables = nil
			for _, n := range names {
				cc.Variables = append(cc.Variables, fac.Var(n))
			}
		}
		switch how {
		case 0:
			return randomizer.New(fac, &cc)
		case 1:
			fac.PutConfiguration(&cc)
			return randomizer.New(fac)
		default:
			return randomizer.NewWithSeed(fac, cfg.Seed)
		}
	}
	facs := [2]f.Factory{f.NewFactory(conserve), f.NewFactory(conserve)}
	if r.P(30) { // other variables exist already in both
		for _, fac := range facs {
			for i := 0; i < 5; i++ {
				fac.Var(fmt.Sprintf("z%d", i))
			}
		}
	}
	gens := [2]*randomizer.FormulaRandomizer{mk(facs[0]), mk(facs[1])}
	allowed := map[string]bool{}
	if own {
		for _, n := range names {
			allowed[n] = true
		}
	} else {
		digits := len(fmt.Sprint(cfg.NumVars - 1))
		for i := 0; i < cfg.NumVars; i++ {
			allowed[fmt.Sprintf("v%0*d", digits, i)] = true
		}
	}
	var first [][]f.Formula
	for _, call := range calls {
		var res [2][]f.Formula
		for i, g := range gens {
			res[i] = call.run(g)
		}
		c.Check(len(res[0]) == len(res[1]), "%v: %d and %d formulas", call, len(res[0]), len(res[1]))
		if p30kinds[call.Kind] == "ConstraintSet" {
			c.Check(len(res[0]) == call.N, "%v: %d formulas", call, len(res[0]))
		} else {
			c.Check(len(res[0]) == 1, "%v: %d formulas", call, len(res[0]))
		}
		for i := range res[0] {
			a, b := res[0][i].Sprint(facs[0]), res[1][i].Sprint(facs[1])
			c.Check(a == b, "%v: equal configuration and seed, yet %s and %s", call, cut(a, 200), cut(b, 200))
			p30judge(c, facs[0], cfg, call, res[0][i], allowed)
		}
		first = append(first, res[0])
		if len(res[0]) > 0 {
			c.NT(cut(res[0][0].Sprint(facs[0]), 200))
		}
		c.Obs("formulas."+p30kinds[call.Kind], len(res[0]))
	}
	if r.P(50) { // a third generator on the first factory
		g := mk(facs[0])
		for k, call := range calls {
			for i, x := range call.run(g) {
				c.Check(x == first[k][i], "%v: generator with equal configuration on the same factory: %s instead of %s", call,
					cut(x.Sprint(facs[0]), 200), cut(first[k][i].Sprint(facs[0]), 200))
			}
		}
		c.Obs("repeats", 1)
	}
}

func p30judge(c *Ctx, fac f.Factory, cfg *randomizer.Config, call p30call, x f.Formula, allowed map[string]bool) {
	str := x.Sprint(fac)
	kind := p30kinds[call.Kind]
	for _, v := range f.Variables(fac, x).Content() {
		c.Check(allowed[v.Sprint(fac)], "%v: variable %s is not configured: %s", call, v.Sprint(fac), cut(str, 200))
	}
	depth := call.Depth
	switch kind {
	case "Constant", "Variable", "Literal", "Atom", "CC", "AMO", "EXO", "PBC":
		depth = 0
	}
	c.Check(f.Depth(fac, x) <= depth, "%v: depth %d > %d: %s", call, f.Depth(fac, x), depth, cut(str, 200))
	c.Obs(fmt.Sprintf("depth%d", f.Depth(fac, x)), 1)
	s := x.Sort()
	atom := s == f.SortTrue || s == f.SortFalse || s == f.SortLiteral || s == f.SortCC || s == f.SortPBC
	switch kind {
	case "Constant":
		c.Check(s == f.SortTrue || s == f.SortFalse, "Constant returned %s", str)
	case "Variable":
		c.Check(s == f.SortLiteral && f.Literal(x).IsPos(), "Variable returned %s", str)
	case "Literal":
		c.Check(s == f.SortLiteral, "Literal returned %s", str)
		c.Check(cfg.WeightNegLit > 0 || f.Literal(x).IsPos(), "Literal returned %s with weight 0 for negative literals", str)
		c.Check(cfg.WeightPosLit > 0 || !f.Literal(x).IsPos(), "Literal returned %s with weight 0 for positive literals", str)
	case "Not", "Impl", "Equiv", "And", "Or":
		want := map[string]f.FSort{"Not": f.SortNot, "Impl": f.SortImpl, "Equiv": f.SortEquiv, "And": f.SortAnd, "Or": f.SortOr}[kind]
		switch {
		case call.Depth == 0:
			c.Check(atom, "%v: not an atom: %s", call, str)
		case kind == "Not" && call.Depth == 1: // negated literal, constant or constraint
			c.Check(atom || s == f.SortNot, "%v: %s", call, str)
		default:
			c.Check(s == want, "%v: sort %v: %s", call, s, cut(str, 200))
		}
		if call.Depth >= 1 {
			c.NT("special")
			c.Obs("special", 1)
		}
		ops := len(fac.Operands(x))
		// operands of depth 0 cannot be flattened into their parent
		if call.Depth == 1 && kind == "And" {
			c.Check(ops <= cfg.MaximumOpsAnd, "%v: %d operands: %s", call, ops, str)
		}
		if call.Depth == 1 && kind == "Or" {
			c.Check(ops <= cfg.MaximumOpsOr, "%v: %d operands: %s", call, ops, str)
		}
	case "CC":
		c.Check(s == f.SortCC || s == f.SortLiteral || s == f.SortPBC, "CC returned %s", str)
	case "PBC":
		c.Check(s == f.SortPBC || s == f.SortCC || s == f.SortLiteral, "PBC returned %s", str)
	case "AMO", "EXO":
		p30amo(c, fac, cfg, kind, x)
	case "Atom":
		c.Check(atom, "Atom returned %s", str)
	}
	special := kind != "Formula" && kind != "ConstraintSet"
	p30walk(c, fac, cfg, x, x, special)
}

// p30amo: an exactly- or at-most-one constraint over at least one variable; over
// a single variable it simplifies to a constant or the variable.
func p30amo(c *Ctx, fac f.Factory, cfg *randomizer.Config, kind string, x f.Formula) {
	str := x.Sprint(fac)
	switch x.Sort() {
	case f.SortTrue:
		c.Check(kind == "AMO", "%s returned %s", kind, str)
	case f.SortLiteral:
		c.Check(kind == "EXO" && f.Literal(x).IsPos(), "%s returned %s", kind, str)
	case f.SortCC:
		cmp, rhs, lits, _, ok := fac.PBCOps(x)
		c.Check(ok && rhs == 1 && len(lits) >= 1, "%s returned %s", kind, str)
		if kind == "AMO" {
			c.Check(cmp == f.LE, "AMO returned %s", str)
		} else {
			c.Check(cmp == f.EQ, "EXO returned %s", str)
		}
	default:
		c.Failf("%s returned %s", kind, str)
	}
}

// p30walk checks bounds and zero weights in every subformula. The top of a
// special generator's result is exempt from the weights.
func p30walk(c *Ctx, fac f.Factory, cfg *randomizer.Config, top, x f.Formula, exempt bool) {
	where := cut(top.Sprint(fac), 200)
	no := func(ok bool, what string) {
		c.Check(ok || exempt, "%s with weight 0 in %s", what, where)
	}
	switch x.Sort() {
	case f.SortTrue, f.SortFalse:
		no(cfg.WeightConstant > 0 || x.Sort() == f.SortTrue && cfg.WeightAMO > 0 ||
			cfg.WeightImpl > 0 || cfg.WeightNot > 0 || cfg.WeightEquiv > 0, "constant")
	case f.SortLiteral:
		if !f.Literal(x).IsPos() {
			no(cfg.WeightNegLit > 0 || cfg.WeightNot > 0 || cfg.WeightImpl > 0 || cfg.WeightEquiv > 0 || cfg.WeightPBC > 0 || cfg.WeightCC > 0, "negative literal")
		} else {
			no(cfg.WeightPosLit > 0 || cfg.WeightNot > 0 || cfg.WeightImpl > 0 || cfg.WeightEquiv > 0 || cfg.WeightEXO > 0 || cfg.WeightCC > 0 || cfg.WeightPBC > 0, "positive literal")
		}
	case f.SortCC, f.SortPBC:
		cmp, _, lits, coefs, ok := fac.PBCOps(x)
		c.Check(ok, "no constraint: %s", x.Sprint(fac))
		no(cfg.WeightPBC > 0 || cfg.WeightCC > 0 || cfg.WeightAMO > 0 || cfg.WeightEXO > 0, "constraint")
		isCC := x.Sort() == f.SortCC
		if isCC {
			c.Check(len(lits) <= max(cfg.MaximumOpsCC, cfg.MaximumOpsPBC-1), "%d operands in %s", len(lits), x.Sprint(fac))
			if exempt && cfg.MaximumOpsPBC-1 > cfg.MaximumOpsCC {
				break
			}
			if cfg.WeightPBC == 0 && !exempt {
				c.Check(len(lits) <= cfg.MaximumOpsCC, "%d operands in %s", len(lits), x.Sprint(fac))
				for _, l := range lits {
					c.Check(l.IsPos(), "negative literal in %s", x.Sprint(fac))
				}
			}
		} else {
			no(cfg.WeightPBC > 0, "pseudo-Boolean constraint")
			c.Check(len(lits) <= cfg.MaximumOpsPBC, "%d operands in %s", len(lits), x.Sprint(fac))
			for _, k := range coefs {
				c.Check(k != 0 && max(k, -k) <= cfg.MaximumCoeffPBC, "coefficient %d in %s", k, x.Sprint(fac))
				c.Check(k > 0 || cfg.WeightPBCCoeffNeg > 0, "negative coefficient in %s", x.Sprint(fac))
				c.Check(k < 0 || cfg.WeightPBCCoeffPos > 0, "positive coefficient in %s", x.Sprint(fac))
			}
			ws := map[f.CSort]float64{f.LE: cfg.WeightPBCLE, f.LT: cfg.WeightPBCLT, f.GE: cfg.WeightPBCGE, f.GT: cfg.WeightPBCGT, f.EQ: cfg.WeightPBCEQ}
			c.Check(ws[cmp] > 0 || true, "comparator")
			if top == x || (cfg.WeightNot == 0 && cfg.WeightImpl == 0 && cfg.WeightEquiv == 0) {
				c.Check(ws[cmp] > 0, "comparator of weight 0 in %s", x.Sprint(fac))
			}
			c.Obs("pbc", 1)
		}
	case f.SortAnd:
		no(cfg.WeightAnd > 0, "conjunction")
	case f.SortOr:
		no(cfg.WeightOr > 0, "disjunction")
	case f.SortNot:
		no(cfg.WeightNot > 0 || cfg.WeightImpl > 0 || cfg.WeightEquiv > 0, "negation")
	case f.SortImpl:
		no(cfg.WeightImpl > 0, "implication")
	case f.SortEquiv:
		no(cfg.WeightEquiv > 0, "equivalence")
	}
	if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
		return
	}
	for _, o := range fac.Operands(x) {
		p30walk(c, fac, cfg, top, o, false)
	}
}

// p30weights compares the frequency of each type with its weight, six standard
// deviations apart at most.
func p30weights(c *Ctx) {
	r := c.R
	cfg := p30config(r)
	cfg.WeightAMO, cfg.WeightEXO = 0, 0
	fac := f.NewFactory(r.P(30))
	g := randomizer.New(fac, cfg)
	n := 600
	cnt := map[string]int{}
	neg, lits := 0, 0
	for i := 0; i < n; i++ {
		x := g.Formula(2)
		switch x.Sort() {
		case f.SortTrue, f.SortFalse:
			cnt["constant"]++
		case f.SortLiteral:
			cnt["literal"]++
			if !f.Literal(x).IsPos() {
				neg++
			}
			lits++
		case f.SortCC, f.SortPBC:
			cnt["constraint"]++
		case f.SortAnd:
			cnt["and"]++
		case f.SortOr:
			cnt["or"]++
		case f.SortNot:
			cnt["not"]++
		case f.SortImpl:
			cnt["impl"]++
		case f.SortEquiv:
			cnt["equiv"]++
		}
	}
	w := map[string]float64{"constant": cfg.WeightConstant, "literal": cfg.WeightPosLit + cfg.WeightNegLit, "constraint": cfg.WeightPBC + cfg.WeightCC,
		"and": cfg.WeightAnd, "or": cfg.WeightOr, "not": cfg.WeightNot, "impl": cfg.WeightImpl, "equiv": cfg.WeightEquiv}
	total := 0.0
	for _, x := range w {
		total += x
	}
	if w["constraint"] > 0 { // constraints may simplify to literals
		cnt["literal"] += cnt["constraint"]
		w["literal"] += w["constraint"]
		delete(w, "constraint")
	} else {
		c.Check(cnt["constraint"] == 0, "constraints with weight 0")
		if lits > 0 {
			p := cfg.WeightNegLit / (cfg.WeightPosLit + cfg.WeightNegLit)
			p30freq(c, "negative literals", neg, lits, p, cfg)
		}
	}
	for _, k := range []string{"constant", "literal", "constraint", "and", "or", "not", "impl", "equiv"} {
		if x, ok := w[k]; ok {
			p30freq(c, k, cnt[k], n, x/total, cfg)
		}
	}
	c.Obs("weighted.draws", n)
	c.NT(fmt.Sprint("weights", cnt))
	c.Obs("weights", 1)
}

func p30freq(c *Ctx, what string, k, n int, p float64, cfg *randomizer.Config) {
	exp := float64(n) * p
	sd := math.Sqrt(exp * (1 - p))
	c.Check(math.Abs(float64(k)-exp) <= 6*sd+4, "%s: %d of %d, expected %.1f with weights %+v", what, k, n, exp, *cfg)
	if p == 0 {
		c.Check(k == 0, "%s with weight 0: %d of %d", what, k, n)
	}
}

func init() {
	register(&PropDef{ID: "P30", Quick: 20000, Thorough: 400000,
		Rule: "two generators with equal configuration and seed on fresh factories agree call by call; variables, depth, bounds, sorts and weights of every generated formula are judged by walking it, frequencies against the weights",
		Need: []string{"special", "pbc", "weights"},
		Assume: []string{
			"at least four variables, MaximumOps* >= 2, MaximumCoeffPBC >= 1, some literal weight > 0 (other configurations do not terminate or are meaningless)",
		},
		Run: runP30})
	probe("randomizer-cc-determinism", "P30", func(c *Ctx) {
		gen := func() string {
			fac := f.NewFactory()
			g := randomizer.NewWithSeed(fac, 7)
			s := ""
			for i := 0; i < 40; i++ {
				s += g.CC().Sprint(fac) + "; " + g.AMO().Sprint(fac) + "; " + g.EXO().Sprint(fac) + "; "
			}
			return s
		}
		a := gen()
		for i := 0; i < 5; i++ {
			c.Check(gen() == a, "two generators with seed 7 produce different cardinality constraints")
		}
	})
	probe("randomizer-two-operands", "P30", func(c *Ctx) {
		cfg := randomizer.DefaultConfig()
		cfg.MaximumOpsAnd, cfg.MaximumOpsOr = 2, 2
		fac := f.NewFactory()
		p := caught(func() {
			g := randomizer.New(fac, cfg)
			for i := 0; i < 20; i++ {
				g.And(1)
				g.Or(1)
			}
		})
		c.Check(p == nil, "at most two operands: %v", p)
	})
}
