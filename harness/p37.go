package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// storedConfigs, when set, makes every world of a case carry randomly drawn
// configurations of all sorts in its factory.
var storedConfigs *Rng

var cfgSorts = []configuration.Sort{configuration.CNF, configuration.Sat, configuration.MaxSat, configuration.Encoder,
	configuration.FormulaRandomizer, configuration.AdvancedSimplifier, configuration.ModelIteration}

func randCNFConfig(r *Rng) *normalform.CNFConfig {
	cfg := normalform.DefaultCNFConfig()
	cfg.Algorithm = pick(r, normalform.CNFAdvanced, normalform.CNFAdvanced, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum)
	cfg.FallbackAlgorithmForAdvancedEncoding = pick(r, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum)
	cfg.DistributionBoundary = pick(r, -1, r.Range(0, 30))
	cfg.CreatedClauseBoundary = pick(r, 1000, r.Range(0, 10), r.Range(0, 40))
	cfg.AtomBoundary = pick(r, 12, r.Range(0, 5), r.Range(0, 13))
	return cfg
}

func randSimpConfig(r *Rng) *simplification.Config {
	return &simplification.Config{RestrictBackbone: r.Bool(), FactorOut: r.Bool(), SimplifyNegations: r.Bool(), UseRatingFunction: r.Bool(), RatingFunction: pick(r, simplification.DefaultRatingFunction, func(fac f.Factory, g f.Formula) float64 { return float64(f.NumberOfAtoms(fac, g)) })}
}

func randConfigOf(r *Rng, w *World, sort configuration.Sort) configuration.Config {
	switch sort {
	case configuration.CNF:
		return randCNFConfig(r)
	case configuration.Sat:
		return randSatConfig(r)
	case configuration.MaxSat:
		return randMaxSatConfig(r)
	case configuration.Encoder:
		return randEncConfig(r)
	case configuration.FormulaRandomizer:
		return p30config(r)
	case configuration.AdvancedSimplifier:
		return randSimpConfig(r)
	default:
		return iter.DefaultConfig()
	}
}

func storeConfigs(w *World) {
	if r := storedConfigs; r != nil {
		for _, s := range cfgSorts {
			if r.P(60) {
				w.F.PutConfiguration(randConfigOf(r, w, s))
			}
		}
	}
}

func copyConfigs(from, to f.Factory) {
	for _, s := range cfgSorts {
		if c, ok := from.ConfigurationFor(s); ok && storedConfigs != nil {
			to.PutConfiguration(c)
		}
	}
}

// The behaviour under a stored configuration is compared with the behaviour
// under the same configuration given explicitly, on factories with the same
// history.  Configurations of the other sorts are the same on both.

type op37 struct {
	name string
	sort configuration.Sort
	run  func(e *env37, cfg configuration.Config) string // cfg nil: none given
}

type env37 struct {
	w    *World
	node []*Node
	cc   func(w *World) f.Formula
	pbc  func(w *World) f.Formula
	seed uint64
	sat  *sat.Config
	alg  maxsat.Algorithm
	big  int
}

func fs37(w *World, gs []f.Formula) string {
	var s []string
	for _, g := range gs {
		s = append(s, g.Sprint(w.F))
	}
	return strings.Join(s, "; ")
}

// tighten37 tightens the bound by one, if there is room.
func tighten37(w *World, cc f.Formula, d *encoding.CCIncrementalData) []f.Formula {
	cmp, rhs, lits, _, _ := w.F.PBCOps(cc)
	switch {
	case cmp == f.LE && rhs > 0:
		return d.NewUpperBound(rhs - 1)
	case cmp == f.LT && rhs > 1:
		return d.NewUpperBound(rhs - 2)
	case cmp == f.GE && rhs < len(lits):
		return d.NewLowerBound(rhs + 1)
	case cmp == f.GT && rhs+1 < len(lits):
		return d.NewLowerBound(rhs + 2)
	}
	return nil
}

// auxes tells how many auxiliary variables of each sort the factory created.
func auxes(w *World) string {
	s := "next auxiliaries"
	for _, a := range []f.AuxVarSort{f.AuxCNF, f.AuxCC, f.AuxPBC} {
		s += " " + w.F.NewAuxVar(a).Sprint(w.F)
	}
	return s
}

func opt37[T any](cfg configuration.Config) []*T {
	if cfg == nil {
		return nil
	}
	return []*T{any(cfg).(*T)}
}

var ops37 = []op37{
	{"CNF", configuration.CNF, func(e *env37, cfg configuration.Config) string {
		w := e.w
		s := ""
		for _, n := range e.node {
			s += normalform.CNF(w.F, w.Build(n), opt37[normalform.CNFConfig](cfg)...).Sprint(w.F) + "; "
		}
		return s + auxes(w)
	}},
	{"solver", configuration.Sat, func(e *env37, cfg configuration.Config) string {
		w := e.w
		s := sat.NewSolver(w.F, opt37[sat.Config](cfg)...)
		s.Add(e.cc(w))
		for i, n := range e.node {
			s.AddProposition(f.NewStandardProposition(w.Build(n), fmt.Sprint("p", i)))
		}
		out := fs37(w, s.FormulasOnSolver())
		p := &recorder{}
		r := s.Call(sat.WithHandler(p).WithModel(w.Vars()).WithUPZeros())
		out += fmt.Sprint(" ", r.OK(), r.Sat(), p)
		if r.Sat() {
			out += r.Model().Sprint(w.F)
		}
		core := caught(func() {
			r := s.Call(sat.WithCore().WithModel(nil).Literal(w.Lit(PLit{0, true}), w.Lit(PLit{0, false})))
			if u := r.UnsatCore(); u != nil {
				for _, p := range u.Propositions {
					out += " core " + p.Sprint(w.F)
				}
			}
		})
		return out + fmt.Sprint(" core refused: ", core != nil, core) + auxes(w)
	}},
	{"cardinality encoding", configuration.Encoder, func(e *env37, cfg configuration.Config) string {
		w := e.w
		gs, err := encoding.EncodeCC(w.F, e.cc(w), opt37[encoding.Config](cfg)...)
		return fmt.Sprint(fs37(w, gs), err, auxes(w))
	}},
	{"pseudo-Boolean encoding", configuration.Encoder, func(e *env37, cfg configuration.Config) string {
		w := e.w
		gs, err := encoding.EncodePBC(w.F, e.pbc(w), opt37[encoding.Config](cfg)...)
		return fmt.Sprint(fs37(w, gs), err, auxes(w))
	}},
	{"incremental encoding", configuration.Encoder, func(e *env37, cfg configuration.Config) string {
		w := e.w
		res := encoding.ResultForFormula(w.F)
		cc := e.cc(w)
		if cc.Sort() != f.SortCC {
			return "no constraint"
		}
		d, err := encoding.EncodeIncremental(w.F, cc, res, opt37[encoding.Config](cfg)...)
		s := fs37(w, res.Formulas())
		if d != nil && err == nil {
			s += " tightened " + fs37(w, tighten37(w, cc, d))
		}
		return s + fmt.Sprint(err, auxes(w))
	}},
	{"advanced simplifier", configuration.AdvancedSimplifier, func(e *env37, cfg configuration.Config) string {
		w := e.w
		return simplification.Advanced(w.F, w.Build(e.node[0]), opt37[simplification.Config](cfg)...).Sprint(w.F)
	}},
	{"randomizer", configuration.FormulaRandomizer, func(e *env37, cfg configuration.Config) string {
		w := e.w
		rd := randomizer.New(w.F, opt37[randomizer.Config](cfg)...)
		s := ""
		for i := 0; i < 4; i++ {
			s += rd.Formula(i).Sprint(w.F) + "; "
		}
		return s
	}},
	{"MaxSAT", configuration.MaxSat, func(e *env37, cfg configuration.Config) string {
		w := e.w
		mk := map[maxsat.Algorithm]func(f.Factory, ...*maxsat.Config) *maxsat.Solver{
			maxsat.AlgWBO: maxsat.WBO, maxsat.AlgIncWBO: maxsat.IncWBO, maxsat.AlgLinearUS: maxsat.LinearUS, maxsat.AlgMSU3: maxsat.MSU3}[e.alg]
		s := mk(w.F, opt37[maxsat.Config](cfg)...)
		r := &Rng{e.seed}
		for i, n := range e.node {
			if i == 0 {
				s.AddHardFormula(w.Build(n))
			}
			wt := 1
			if s.SupportsWeighted() {
				wt = r.Range(1, 4)
			}
			s.AddSoftFormula(w.Build(n), wt)
		}
		for i := 0; i < w.N; i++ {
			s.AddSoftFormula(w.Lit(PLit{i, r.Bool()}).AsFormula(), 1)
		}
		p := &recorder{}
		res, st := s.SolveWithHandler(p)
		out := fmt.Sprint(st.Success, res.Satisfiable, res.Optimum, p)
		if res.Model != nil {
			out += res.Model.Sprint(w.F)
		}
		return out + auxes(w)
	}},
}

// passed37 are operations which pass the configuration of the factory on to
// others; they have to create as many auxiliary variables as the explicit call.
var passed37 = []struct {
	name string
	sort configuration.Sort
	run  func(e *env37)
	by   func(e *env37, cfg configuration.Config)
}{
	{"constraint on a solver", configuration.Encoder, func(e *env37) {
		sat.NewSolver(e.w.F, e.sat).Add(e.cc(e.w))
	}, func(e *env37, cfg configuration.Config) {
		if g := e.cc(e.w); g.Sort() == f.SortCC {
			encoding.EncodeCC(e.w.F, g, cfg.(*encoding.Config))
		} else {
			sat.NewSolver(e.w.F, e.sat).Add(g)
		}
	}},
	{"pseudo-Boolean constraint on a solver", configuration.Encoder, func(e *env37) {
		sat.NewSolver(e.w.F, e.sat).Add(e.pbc(e.w))
	}, func(e *env37, cfg configuration.Config) {
		if g := e.pbc(e.w); g.Sort() == f.SortPBC || g.Sort() == f.SortCC {
			encoding.EncodePBC(e.w.F, g, cfg.(*encoding.Config))
		} else {
			sat.NewSolver(e.w.F, e.sat).Add(g)
		}
	}},
	{"constraint as normal form", configuration.Encoder, func(e *env37) {
		normalform.NNF(e.w.F, e.pbc(e.w))
	}, func(e *env37, cfg configuration.Config) {
		if g := e.pbc(e.w); g.Sort() == f.SortPBC || g.Sort() == f.SortCC {
			encoding.EncodePBC(e.w.F, g, cfg.(*encoding.Config))
		}
	}},
	{"incremental constraint on a solver", configuration.Encoder, func(e *env37) {
		if g := e.cc(e.w); g.Sort() == f.SortCC {
			sat.NewSolver(e.w.F, e.sat).AddIncrementalCC(g)
		}
	}, func(e *env37, cfg configuration.Config) {
		if g := e.cc(e.w); g.Sort() == f.SortCC {
			encoding.EncodeIncremental(e.w.F, g, encoding.ResultForFormula(e.w.F), cfg.(*encoding.Config))
		}
	}},
	{"formula on a solver", configuration.CNF, func(e *env37) {
		c := *e.sat
		c.CNFMethod = sat.CNFFactory
		sat.NewSolver(e.w.F, &c).Add(e.w.Build(e.node[0]))
	}, func(e *env37, cfg configuration.Config) {
		g := e.w.Build(e.node[0])
		if s := g.Sort(); s == f.SortCC || s == f.SortPBC {
			c := *e.sat
			sat.NewSolver(e.w.F, &c).Add(g)
			return
		}
		normalform.CNF(e.w.F, g, cfg.(*normalform.CNFConfig))
	}},
	{"formula on a MaxSAT solver", configuration.CNF, func(e *env37) {
		c := maxsat.DefaultConfig()
		c.CNFMethod = sat.CNFFactory
		s := maxsat.OLL(e.w.F, c)
		s.AddHardFormula(e.w.Build(e.node[0]))
	}, func(e *env37, cfg configuration.Config) {
		normalform.CNF(e.w.F, e.w.Build(e.node[0]), cfg.(*normalform.CNFConfig))
	}},
}

// deep renders a configuration with everything it refers to.
func deep(cfg configuration.Config) string {
	if s, ok := cfg.(*sat.Config); ok {
		if s.LowLevelConfig != nil {
			c := *s
			c.LowLevelConfig = nil
			return fmt.Sprintf("%+v %+v", c, *s.LowLevelConfig)
		}
	}
	if s, ok := cfg.(*iter.Config); ok {
		return fmt.Sprintf("%T %T", s.Handler, s.Strategy)
	}
	if s, ok := cfg.(*simplification.Config); ok {
		c := *s
		c.RatingFunction = nil
		return fmt.Sprintf("%+v", c)
	}
	return fmt.Sprintf("%+v", reflect.ValueOf(cfg).Elem().Interface())
}

func default37(s configuration.Sort) configuration.Config {
	switch s {
	case configuration.CNF:
		return normalform.DefaultCNFConfig()
	case configuration.Sat:
		return sat.DefaultConfig()
	case configuration.MaxSat:
		return maxsat.DefaultConfig()
	case configuration.Encoder:
		return encoding.DefaultConfig()
	case configuration.FormulaRandomizer:
		return randomizer.DefaultConfig()
	case configuration.AdvancedSimplifier:
		return simplification.DefaultConfig()
	}
	return iter.DefaultConfig()
}

var defaults37 = func() map[configuration.Sort]string {
	m := map[configuration.Sort]string{}
	for _, s := range cfgSorts {
		m[s] = deep(default37(s))
	}
	return m
}()

type refused37 struct{}

func (refused37) Sort() configuration.Sort            { return configuration.FormulaFactory }
func (refused37) DefaultConfig() configuration.Config { return refused37{} }

func newEnv37(c *Ctx) (mk func() *env37) {
	return sizedEnv37(c, c.R.Range(2, 6), c.R.Range(1, 4))
}

func sizedEnv37(c *Ctx, nv, depth int) (mk func() *env37) {
	r := c.R
	g := stdCfg(r, nv)
	g.Depth = depth
	if r.P(40) {
		g.CC, g.PB, g.MaxCC = 2, 2, 4
	}
	var nodes []*Node
	for i := 0; i < r.Range(1, 3); i++ {
		nodes = append(nodes, Gen(r, g))
	}
	cmp, ops := r.Intn(5), r.Subset(nv, 80)
	if r.P(30) {
		cmp = 1
	}
	rhs := uint32(r.Range(0, len(ops)+1))
	if r.P(40) {
		rhs = 1
	}
	pb := genPBC(r, GenCfg{NV: nv, MaxCC: 5, MaxCoef: 5, CCClean: true})
	seed := r.U64()
	wseed := r.U64()
	cons := r.P(20)
	satCfg := randSatConfig(r)
	satCfg.UseAtMostClauses = false
	alg := pick(r, maxsat.AlgWBO, maxsat.AlgIncWBO, maxsat.AlgLinearUS, maxsat.AlgMSU3)
	return func() *env37 {
		w := NewWorld(&Rng{wseed}, nv, cons)
		return &env37{w: w, node: nodes, seed: seed, sat: satCfg, alg: alg,
			cc:  func(w *World) f.Formula { return w.F.CC(csorts[cmp], rhs, w.VarsOf(ops)...) },
			pbc: func(w *World) f.Formula { return w.Build(pb) }}
	}
}

func p37stored(c *Ctx) {
	r := c.R
	mk := newEnv37(c)
	op := ops37[r.Intn(len(ops37))]
	base := mk()
	a, b := randConfigOf(r, base.w, op.sort), randConfigOf(r, base.w, op.sort)
	// configurations of other sorts, the same everywhere
	others := map[configuration.Sort]configuration.Config{}
	for _, s := range cfgSorts {
		if s != op.sort && r.P(40) {
			others[s] = randConfigOf(r, base.w, s)
		}
	}
	wa, wb := deep(a), deep(b)
	c.Logf("%s with %s, other configuration %s, others %v", op.name, wa, wb, len(others))
	run := func(cfg configuration.Config, put ...configuration.Config) (out string, e *env37) {
		e = mk()
		var ss []configuration.Config
		for _, s := range cfgSorts {
			if o, ok := others[s]; ok {
				ss = append(ss, o)
			}
		}
		for _, p := range put {
			ss = append(ss, p)
		}
		for _, s := range ss {
			err := e.w.F.PutConfiguration(s)
			c.Check(err == nil, "%s: the configuration was refused: %v", op.name, err)
		}
		if p := caught(func() { out = op.run(e, cfg) }); p != nil {
			out = fmt.Sprintf("panic %v", p)
		}
		return out, e
	}
	want, _ := run(a)
	c.Logf("explicit: %s", cut(want, 500))
	check := func(got, want string, what string) {
		c.Check(got == want, "%s %s: %s", op.name, what, diffAt(want, got))
	}
	got, e := run(nil, a)
	check(got, want, "under a stored configuration differs from the same configuration given")
	st, ok := e.w.F.ConfigurationFor(op.sort)
	c.Check(ok && st == a, "%s: the factory does not hold the configuration which was stored", op.name)
	got, e = run(a, b)
	check(got, want, "with a given configuration is influenced by the stored one")
	st, ok = e.w.F.ConfigurationFor(op.sort)
	c.Check(ok && st == b, "%s: a given configuration replaced the stored one", op.name)
	got, _ = run(nil, b, a)
	check(got, want, "under a replaced stored configuration")
	// an unsuitable configuration is refused and changes nothing
	e = mk()
	e.w.F.PutConfiguration(a)
	err := e.w.F.PutConfiguration(refused37{})
	_, has := e.w.F.ConfigurationFor(configuration.FormulaFactory)
	c.Check(err != nil && !has, "a configuration of the factory itself was accepted")
	st, ok = e.w.F.ConfigurationFor(op.sort)
	c.Check(ok && st == a, "%s: the refused configuration replaced the stored one", op.name)
	for _, s := range cfgSorts {
		if s != op.sort {
			_, ok := e.w.F.ConfigurationFor(s)
			c.Check(!ok, "a configuration for %s where none was stored", s)
		}
	}
	// none stored and none given
	plain, _ := run(nil)
	def, _ := run(default37(op.sort))
	check(plain, def, "without a configuration differs from the default one")
	c.Check(deep(a) == wa && deep(b) == wb, "%s changed a configuration: %s then %s, %s then %s", op.name, wa, deep(a), wb, deep(b))
	other, _ := run(b)
	c.Obs("stored configurations compared: "+op.name, 1)
	if other != want {
		c.Obs("configurations which make a difference: "+op.name, 1)
		c.NT(op.name + want)
	}
}

// hard37 adds a larger problem, on which the settings of the search matter.
func hard37(e *env37, cfg configuration.Config) string {
	w := e.w
	r := &Rng{e.seed}
	s := sat.NewSolver(w.F, opt37[sat.Config](cfg)...)
	n := r.Range(30, 70) + e.big
	for i := 0; i < n*43/10; i++ {
		var ls []f.Literal
		for _, v := range r.Perm(n)[:3] {
			ls = append(ls, w.F.Lit(fmt.Sprint("h", v), r.Bool()))
		}
		s.Add(w.F.Clause(ls...))
	}
	p := &recorder{}
	res := s.Call(sat.WithHandler(p).WithModel(f.Variables(w.F, s.FormulasOnSolver()...).Content()))
	out := fmt.Sprint(res.OK(), res.Sat(), p)
	if res.Sat() {
		out += res.Model().Sprint(w.F)
	}
	return out
}

// cores37 solves a MaxSAT problem with many small cores, on which the settings
// of symmetry breaking matter.
func cores37(e *env37, cfg configuration.Config) string {
	w := e.w
	r := &Rng{e.seed}
	s := maxsat.WBO(w.F, opt37[maxsat.Config](cfg)...)
	if r.Bool() {
		s = maxsat.IncWBO(w.F, opt37[maxsat.Config](cfg)...)
	}
	n := r.Range(9, 13)
	for i := 0; i < 6*n; i++ {
		var ls []f.Literal
		for _, v := range r.Perm(n)[:3-r.Intn(2)] {
			ls = append(ls, w.F.Lit(fmt.Sprint("h", v), r.Bool()))
		}
		s.AddSoftFormula(w.F.Clause(ls...), 1)
	}
	p := &recorder{}
	res, st := s.SolveWithHandler(p)
	out := fmt.Sprint(st.Success, res.Satisfiable, res.Optimum, p)
	if res.Model != nil {
		out += res.Model.Sprint(w.F)
	}
	return out
}

// leaves lists the settings of a configuration which can be compared.
func leaves37(v reflect.Value, name string) (out []string) {
	for i := 0; i < v.NumField(); i++ {
		n := name + v.Type().Field(i).Name
		switch x := v.Field(i); x.Kind() {
		case reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint8, reflect.Float64:
			out = append(out, n)
		case reflect.Pointer:
			if !x.IsNil() && x.Elem().Kind() == reflect.Struct {
				out = append(out, leaves37(x.Elem(), n+".")...)
			}
		}
	}
	return
}

func leaf37(cfg configuration.Config, name string) reflect.Value {
	v := reflect.ValueOf(cfg).Elem()
	for _, n := range strings.Split(name, ".") {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		v = v.FieldByName(n)
	}
	return v
}

func clone37(cfg configuration.Config) configuration.Config {
	v := reflect.New(reflect.TypeOf(cfg).Elem())
	v.Elem().Set(reflect.ValueOf(cfg).Elem())
	out := v.Interface().(configuration.Config)
	if s, ok := out.(*sat.Config); ok && s.LowLevelConfig != nil {
		l := *s.LowLevelConfig
		s.LowLevelConfig = &l
	}
	return out
}

// target37 is a setting which has to matter now and then, with what is needed
// so that it can.
type target37 struct {
	rule, op, field string
	prep            func(r *Rng, e *targets37, cfg configuration.Config)
}

// targets37 is what a target37 can ask for.
type targets37 struct {
	cmp  int // comparator of the constraint, -1: as drawn
	rhs  uint32
	nv   int
	deep int
	big  int
	wrap func(n *Node) *Node
}

func cnf37(fn func(r *Rng, c *normalform.CNFConfig)) func(r *Rng, e *targets37, cfg configuration.Config) {
	return func(r *Rng, e *targets37, cfg configuration.Config) {
		e.deep = r.Range(3, 5)
		fn(r, cfg.(*normalform.CNFConfig))
	}
}

func enc37(cmp int, lo, hi int, fn func(r *Rng, c *encoding.Config)) func(r *Rng, e *targets37, cfg configuration.Config) {
	return func(r *Rng, e *targets37, cfg configuration.Config) {
		e.nv = r.Range(5, 12)
		e.cmp, e.rhs = cmp, uint32(r.Range(lo, min(hi, e.nv-2)))
		if fn != nil {
			fn(r, cfg.(*encoding.Config))
		}
	}
}

func amo37(enc encoding.AMOEncoder) func(r *Rng, e *targets37, cfg configuration.Config) {
	return func(r *Rng, e *targets37, cfg configuration.Config) {
		e.nv = r.Range(8, 24)
		cmps := pick(r, 1, 1, 0)
		e.cmp, e.rhs = cmps, 1
		c := cfg.(*encoding.Config)
		c.AMOEncoder = enc
		if enc == encoding.AMOProduct {
			e.nv = r.Range(12, 40)
		}
		if enc == encoding.AMOBimander {
			c.BimanderGroupSize = encoding.BimanderFixed
		}
	}
}

// Comparators in the order of csorts: EQ, LE, LT, GE, GT.
var targeted37 = []target37{
	{"CNF", "CNF", "Algorithm", cnf37(func(r *Rng, c *normalform.CNFConfig) { c.AtomBoundary = 0 })},
	{"CNF by Tseitin", "CNF", "AtomBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) { c.Algorithm = normalform.CNFTseitin })},
	{"CNF by Plaisted-Greenbaum", "CNF", "AtomBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) { c.Algorithm = normalform.CNFPlaistedGreenbaum })},
	{"advanced CNF falling back to Tseitin", "CNF", "AtomBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) {
		c.Algorithm, c.FallbackAlgorithmForAdvancedEncoding, c.DistributionBoundary = normalform.CNFAdvanced, normalform.CNFTseitin, 0
	})},
	{"advanced CNF falling back to Plaisted-Greenbaum", "CNF", "AtomBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) {
		c.Algorithm, c.FallbackAlgorithmForAdvancedEncoding, c.DistributionBoundary = normalform.CNFAdvanced, normalform.CNFPlaistedGreenbaum, 0
	})},
	{"advanced CNF", "CNF", "FallbackAlgorithmForAdvancedEncoding", cnf37(func(r *Rng, c *normalform.CNFConfig) {
		c.Algorithm, c.DistributionBoundary, c.AtomBoundary = normalform.CNFAdvanced, 0, 0
	})},
	{"advanced CNF", "CNF", "DistributionBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) {
		c.Algorithm, c.CreatedClauseBoundary, c.AtomBoundary = normalform.CNFAdvanced, -1, 0
	})},
	{"advanced CNF", "CNF", "CreatedClauseBoundary", cnf37(func(r *Rng, c *normalform.CNFConfig) {
		c.Algorithm, c.DistributionBoundary, c.AtomBoundary = normalform.CNFAdvanced, -1, 0
	})},
	{"at most one", "cardinality encoding", "AMOEncoder", func(r *Rng, e *targets37, cfg configuration.Config) {
		e.nv, e.cmp, e.rhs = r.Range(5, 12), 1, 1
	}},
	{"exactly one", "cardinality encoding", "AMOEncoder", func(r *Rng, e *targets37, cfg configuration.Config) {
		e.nv, e.cmp, e.rhs = r.Range(5, 12), 0, 1
	}},
	{"less than two", "cardinality encoding", "AMOEncoder", func(r *Rng, e *targets37, cfg configuration.Config) {
		e.nv, e.cmp, e.rhs = r.Range(5, 12), 2, 2
	}},
	{"bimander", "cardinality encoding", "BimanderGroupSize", amo37(encoding.AMOBimander)},
	{"bimander", "cardinality encoding", "BimanderFixedGroupSize", amo37(encoding.AMOBimander)},
	{"nested", "cardinality encoding", "NestingGroupSize", amo37(encoding.AMONested)},
	{"commander", "cardinality encoding", "CommanderGroupSize", amo37(encoding.AMOCommander)},
	{"product", "cardinality encoding", "ProductRecursiveBound", amo37(encoding.AMOProduct)},
	{"at most k", "cardinality encoding", "AMKEncoder", enc37(1, 2, 8, nil)},
	{"less than k", "cardinality encoding", "AMKEncoder", enc37(2, 3, 8, nil)},
	{"at least k", "cardinality encoding", "ALKEncoder", enc37(3, 2, 8, nil)},
	{"greater than k", "cardinality encoding", "ALKEncoder", enc37(4, 1, 8, nil)},
	{"exactly k", "cardinality encoding", "EXKEncoder", enc37(0, 2, 8, nil)},
	{"at most k", "incremental encoding", "AMKEncoder", enc37(1, 2, 8, nil)},
	{"less than k", "incremental encoding", "AMKEncoder", enc37(2, 3, 8, nil)},
	{"at least k", "incremental encoding", "ALKEncoder", enc37(3, 2, 8, nil)},
	{"greater than k", "incremental encoding", "ALKEncoder", enc37(4, 1, 8, nil)},
	{"pseudo-Boolean", "pseudo-Boolean encoding", "PBCEncoder", func(r *Rng, e *targets37, cfg configuration.Config) {}},
	{"binary merge", "pseudo-Boolean encoding", "BinaryMergeUseGAC", func(r *Rng, e *targets37, cfg configuration.Config) {
		cfg.(*encoding.Config).PBCEncoder = encoding.PBCBinaryMerge
	}},
	{"binary merge", "pseudo-Boolean encoding", "BinaryMergeNoSupportForSingleBit", func(r *Rng, e *targets37, cfg configuration.Config) {
		cfg.(*encoding.Config).PBCEncoder = encoding.PBCBinaryMerge
		cfg.(*encoding.Config).BinaryMergeUseGAC = true
	}},
	{"binary merge", "pseudo-Boolean encoding", "BinaryMergeUseWatchDog", func(r *Rng, e *targets37, cfg configuration.Config) {
		cfg.(*encoding.Config).PBCEncoder = encoding.PBCBinaryMerge
		cfg.(*encoding.Config).BinaryMergeUseGAC = true
	}},
	{"simplifier", "advanced simplifier", "RestrictBackbone", func(r *Rng, e *targets37, cfg configuration.Config) {
		c := cfg.(*simplification.Config)
		c.UseRatingFunction, c.SimplifyNegations, c.FactorOut, e.nv = false, false, false, r.Range(4, 6)
		e.wrap = func(n *Node) *Node { return nAnd(nLit(r.Intn(4), r.Bool()), n) }
	}},
	{"simplifier", "advanced simplifier", "FactorOut", func(r *Rng, e *targets37, cfg configuration.Config) {
		c := cfg.(*simplification.Config)
		c.UseRatingFunction, c.RestrictBackbone, c.SimplifyNegations, e.deep, e.nv = false, false, false, r.Range(3, 5), r.Range(5, 9)
	}},
	{"simplifier", "advanced simplifier", "UseRatingFunction", nil},
	{"simplifier", "advanced simplifier", "SimplifyNegations", func(r *Rng, e *targets37, cfg configuration.Config) {
		c := cfg.(*simplification.Config)
		c.UseRatingFunction, c.RestrictBackbone, c.FactorOut, e.nv = false, false, false, r.Range(5, 9)
		e.wrap = func(n *Node) *Node { return nAnd(nLit(0, false), nLit(1, false), nLit(2, false), n) }
	}},
	{"solver", "solver", "CNFMethod", nil},
	{"solver", "solver", "InitialPhase", nil},
	{"solver", "solver", "ProofGeneration", nil},
	{"solver", "solver", "UseAtMostClauses", nil},
	{"search", "search", "ClauseMinimization", nil},
	{"search", "search", "InitialPhase", nil},
	{"search", "search", "LowLevelConfig.FirstReduceDB", low37},
	{"search", "search", "LowLevelConfig.IncReduceDB", low37},
	{"MaxSAT", "MaxSAT", "CNFMethod", nil},
	{"MaxSAT", "MaxSAT", "IncrementalStrategy", func(r *Rng, e *targets37, cfg configuration.Config) { e.deep = r.Range(2, 4) }},
	{"MaxSAT cores", "MaxSAT cores", "Symmetry", nil},
	{"MaxSAT cores", "MaxSAT cores", "Limit", func(r *Rng, e *targets37, cfg configuration.Config) {
		cfg.(*maxsat.Config).Symmetry = true
		cfg.(*maxsat.Config).Limit = r.Range(1, 3)
	}},
	{"MaxSAT", "MaxSAT", "WeightStrategy", func(r *Rng, e *targets37, cfg configuration.Config) { e.deep = r.Range(2, 4) }},
}

func low37(r *Rng, e *targets37, cfg configuration.Config) {
	c := cfg.(*sat.Config)
	c.LowLevelConfig = sat.DefaultLowLevelConfig()
	c.LowLevelConfig.FirstReduceDB = r.Range(2, 5)
	c.LowLevelConfig.IncReduceDB = r.Range(1, 4)
	e.big = r.Range(50, 80)
}

func init() {
	for _, n := range leaves37(reflect.ValueOf(randomizer.DefaultConfig()).Elem(), "") {
		targeted37 = append(targeted37, target37{"randomizer", "randomizer", n, nil})
	}
}

// p37fields changes one setting only.  Whether it matters is judged over all
// cases: a setting which matters here now and then must not be ignored.
func p37fields(c *Ctx) {
	r := c.R
	t := targeted37[r.Intn(len(targeted37))]
	op := op37{"search", configuration.Sat, hard37}
	if t.op == "MaxSAT cores" {
		op = op37{t.op, configuration.MaxSat, cores37}
	}
	for _, o := range ops37 {
		if o.name == t.op {
			op = o
		}
	}
	var a configuration.Config
	if op.sort == configuration.FormulaRandomizer {
		rc := p30config(r)
		rc.Seed = int64(r.Intn(1 << 20))
		a = rc
	} else {
		a = randConfigOf(r, nil, op.sort)
	}
	q := &targets37{cmp: -1, nv: r.Range(2, 6), deep: r.Range(1, 4)}
	if t.prep != nil {
		t.prep(r, q, a)
	}
	if op.name == "search" {
		a.(*sat.Config).ProofGeneration = false
	}
	b := clone37(a)
	for i := 0; i < 20 && leaf37(a, t.field).Interface() == leaf37(b, t.field).Interface(); i++ {
		if x := leaf37(randConfigOf(r, nil, op.sort), t.field); x.IsValid() {
			leaf37(b, t.field).Set(x)
		}
	}
	if leaf37(a, t.field).Interface() == leaf37(b, t.field).Interface() || !terminates37(b) {
		return
	}
	mk := sizedEnv37(c, q.nv, q.deep)
	inner := mk()
	if q.wrap != nil {
		inner.node[0] = q.wrap(inner.node[0])
	}
	out := func(cfg configuration.Config, put bool) (s string) {
		e := mk()
		e.big = q.big
		if q.cmp >= 0 {
			e.cc = func(w *World) f.Formula {
				var all []int
				for i := 0; i < w.N; i++ {
					all = append(all, i)
				}
				return w.F.CC(csorts[q.cmp], q.rhs, w.VarsOf(all)...)
			}
		}
		if put {
			e.w.F.PutConfiguration(cfg)
			cfg = nil
		}
		if p := caught(func() { s = op.run(e, cfg) }); p != nil {
			s = fmt.Sprint("panic ", p)
		}
		return s
	}
	c.Logf("%s: %s %v -> %v in %s", t.rule, t.field, leaf37(a, t.field).Interface(), leaf37(b, t.field).Interface(), deep(a))
	key := op.name + " (" + t.rule + "): " + t.field
	x, y := out(a, false), out(b, false)
	st := out(b, true)
	c.Check(st == y, "%s under a stored configuration %s differs from the same one given: %s", key, deep(b), diffAt(y, st))
	c.Obs("setting tried: "+key, 1)
	if x != y {
		c.Obs("setting matters: "+key, 1)
	}
}

func terminates37(cfg configuration.Config) bool {
	if x, ok := cfg.(*randomizer.Config); ok {
		return x.WeightPosLit+x.WeightNegLit > 0 && x.WeightOr+x.WeightAnd > 0 && x.WeightPBCCoeffPos+x.WeightPBCCoeffNeg > 0 &&
			x.WeightPBCLE+x.WeightPBCLT+x.WeightPBCGE+x.WeightPBCGT+x.WeightPBCEQ > 0
	}
	return true
}

func p37passed(c *Ctx) {
	r := c.R
	mk := newEnv37(c)
	op := passed37[r.Intn(len(passed37))]
	a := randConfigOf(r, mk().w, op.sort)
	out := func(fn func(e *env37), put configuration.Config) (s string) {
		e := mk()
		if put != nil {
			e.w.F.PutConfiguration(put)
		}
		if p := caught(func() { fn(e) }); p != nil {
			return fmt.Sprint("panic ", p)
		}
		return auxes(e.w)
	}
	e := mk()
	c.Logf("%s with %s: %s, %s, %s", op.name, deep(a), e.cc(e.w).Sprint(e.w.F), e.pbc(e.w).Sprint(e.w.F), e.w.Build(e.node[0]).Sprint(e.w.F))
	got := out(op.run, a)
	// the explicit configuration covers the own sort only, inner calls of the
	// same sort read the factory
	want := out(func(e *env37) { op.by(e, a) }, a)
	c.Check(got == want, "%s: with the stored configuration %s: %s, with the same one given: %s", op.name, deep(a), got, want)
	c.Obs("configurations passed on: "+op.name, 1)
	c.NT(op.name + deep(a) + got)
}

func p37values(c *Ctx) {
	r := c.R
	for _, s := range cfgSorts {
		d := default37(s)
		c.Check(d.Sort() == s, "the default configuration of %s has sort %s", s, d.Sort())
		c.Check(deep(d) == defaults37[s], "the default configuration of %s changed from %s to %s", s, defaults37[s], deep(d))
		d2 := d.DefaultConfig()
		c.Check(reflect.TypeOf(d2) == reflect.TypeOf(d) && deep(d2) == defaults37[s], "the default of a configuration of %s is %s, not %s", s, deep(d2), defaults37[s])
		w := randConfigOf(r, nil, s)
		c.Check(w.Sort() == s && deep(w.DefaultConfig()) == defaults37[s], "a configuration of %s has sort %s and default %s", s, w.Sort(), deep(w.DefaultConfig()))
		// change everything in a configuration; others stay as they are
		for _, x := range []configuration.Config{d, d2} {
			scribble37(reflect.ValueOf(x).Elem(), r)
		}
		c.Check(deep(default37(s)) == defaults37[s], "changing a default configuration of %s changed the next one to %s", s, deep(default37(s)))
		c.Obs("default configurations judged", 1)
	}
	// the setters of the SAT configuration
	cfg := randSatConfig(r)
	model := *cfg
	for i := 0; i < r.Range(1, 6); i++ {
		b := r.Bool()
		var ret *sat.Config
		switch r.Intn(5) {
		case 0:
			m := sat.CNFMethod(r.Intn(3))
			ret, model.CNFMethod = cfg.CNF(m), m
		case 1:
			m := sat.ClauseMinimization(r.Intn(3))
			ret, model.ClauseMinimization = cfg.ClauseMin(m), m
		case 2:
			ret, model.InitialPhase = cfg.InitPhase(b), b
		case 3:
			ret, model.ProofGeneration = cfg.Proofs(b), b
		default:
			ret, model.UseAtMostClauses = cfg.UseAtMost(b), b
		}
		c.Check(ret == cfg && *cfg == model, "a setter gives %s, expected %s", deep(cfg), deep(&model))
		c.Obs("setters judged", 1)
	}
}

// scribble37 changes every field.
func scribble37(v reflect.Value, r *Rng) {
	for i := 0; i < v.NumField(); i++ {
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Bool:
			x.SetBool(!x.Bool())
		case reflect.Int, reflect.Int64:
			x.SetInt(x.Int() + int64(r.Range(1, 9)))
		case reflect.Uint8:
			x.SetUint(x.Uint() ^ 1)
		case reflect.Float64:
			x.SetFloat(x.Float() + 0.5)
		case reflect.Pointer:
			if !x.IsNil() && x.Elem().Kind() == reflect.Struct {
				scribble37(x.Elem(), r)
			}
		}
	}
}

// p37others are the properties which have to hold under stored configurations
// as well.
var p37others = []string{"P03", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P17", "P18", "P18", "P19", "P20",
	"P21", "P21", "P22", "P23", "P24", "P24", "P25", "P25", "P26", "P26", "P27", "P28", "P29", "P33", "P34", "P36"}

func p37other(c *Ctx) {
	id := p37others[c.R.Intn(len(p37others))]
	if c.R.P(3) {
		id = "P16"
	}
	sum := newSummary()
	sub := newCtx(id, c.Seed+37, c.Idx, false, sum)
	storedConfigs = NewRng(c.Seed, "stored", c.Idx)
	defer func() {
		storedConfigs = nil
		c.trace = append(c.trace, sub.trace...)
		c.sum.Checks += sum.Checks
		c.Obs("judgements under stored configurations: "+id, int(sum.Checks))
		if e := recover(); e != nil {
			if v, ok := e.(Violation); ok {
				e = Violation{"under stored configurations, " + id + ": " + v.Msg}
			}
			panic(e)
		}
	}()
	c.Logf("a case of %s", id)
	props[id].Run(sub)
	c.NT(fmt.Sprint(id, c.Idx))
}

func runP37(c *Ctx) {
	switch x := c.R.Intn(100); {
	case x < 25:
		p37fields(c)
	case x < 45:
		p37stored(c)
	case x < 61:
		p37passed(c)
	case x < 63:
		p37values(c)
	default:
		p37other(c)
	}
}

func init() {
	register(&PropDef{ID: "P37", Quick: 80000, Thorough: 2000000, Run: runP37,
		Rule: "one case = one operation run on factories with the same history under a stored, a given, a replaced and no configuration; or one operation which passes the configuration on, by the auxiliary variables it creates; or the default configurations; or one case of another property with random configurations of all sorts stored in its factories; non-trivial = distinct operations with configurations that make a difference",
		Final: func(obs map[string]int64) string {
			for k, n := range obs {
				if key, ok := strings.CutPrefix(k, "setting tried: "); ok && n >= 200 && obs["setting matters: "+key] == 0 {
					return fmt.Sprintf("the setting %s made no difference in any of %d cases which differ in it only", key, n)
				}
			}
			return ""
		},
		Need: []string{"configurations which make a difference: CNF", "configurations which make a difference: solver", "configurations which make a difference: cardinality encoding",
			"configurations which make a difference: pseudo-Boolean encoding", "configurations which make a difference: incremental encoding", "configurations which make a difference: advanced simplifier",
			"configurations which make a difference: randomizer", "configurations which make a difference: MaxSAT", "configurations passed on: constraint on a solver", "configurations passed on: pseudo-Boolean constraint on a solver",
			"configurations passed on: formula on a solver", "default configurations judged", "setters judged", "judgements under stored configurations: P18", "judgements under stored configurations: P24"},
		Assume: []string{"LinearSU, WMSU3 and OLL bring a configuration of their own and model iteration never reads the factory's; neither is judged"}})
	probe("dnnf-pg-config", "P37", func(c *Ctx) {
		for _, alg := range []normalform.CNFAlgorithm{normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced} {
			fac := f.NewFactory()
			cfg := normalform.DefaultCNFConfig()
			cfg.Algorithm, cfg.FallbackAlgorithmForAdvancedEncoding, cfg.AtomBoundary, cfg.CreatedClauseBoundary = alg, normalform.CNFPlaistedGreenbaum, 0, 0
			fac.PutConfiguration(cfg)
			a, b, d := fac.Variable("a"), fac.Variable("b"), fac.Variable("d")
			g := fac.Equivalence(fac.Equivalence(a, b), fac.And(b.Negate(fac), d))
			got := dnnf.Compile(fac, g).ModelCount()
			c.Check(got.Int64() == 4, "%s as stored CNF method: model count %s of the DNNF of %s instead of 4", alg, got, g.Sprint(fac))
			k, err := count.Count(fac, f.Variables(fac, g).Content(), g)
			c.Check(err == nil && k.Int64() == 4, "%s as stored CNF method: count %s instead of 4", alg, k)
		}
	})
}
