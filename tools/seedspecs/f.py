exec(open("/verif/tools/seedspecs/c.py").read().split("SEEDS.append")[0])

SEEDS.append(dict(id="p37-lowlevel-shared", property="P37",
 needs="a default SAT configuration whose low-level settings the caller changes, and a later solver with the default configuration in the same process",
 breaks="all default configurations share one value of the low-level settings: changing them in one changes them in all later ones",
 edits=[("sat/config.go",'''		LowLevelConfig:     DefaultLowLevelConfig(),
''','''		LowLevelConfig:     defaultLowLevelConfig,
'''),("sat/config.go",'''// LowLevelConfig describes the low-level parameters''','''var defaultLowLevelConfig = DefaultLowLevelConfig()

// LowLevelConfig describes the low-level parameters''')],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	_ = f.NewFactory()
	c := sat.DefaultConfig()
	want := *sat.DefaultLowLevelConfig()
	c.LowLevelConfig.RestartFirst = 7
	if d := sat.DefaultConfig(); *d.LowLevelConfig != want {
		t.Fatal("changed default configuration")
	}
}
''')))

SEEDS.append(dict(id="p37-incremental-gt", property="P37",
 needs="an incremental encoding of a greater-than constraint with a configuration whose at-least-k encoder is not the default one",
 breaks="incremental greater-than constraints are encoded with the default configuration instead of the given or stored one",
 edits=[("encoding/cc_encoding.go",'''		return alkIncremental(result, cfg, ops, rhs+1)''','''		return alkIncremental(result, DefaultConfig(), ops, rhs+1)''')],
 demo=demo(["encoding"],'''
func TestDemo(t *testing.T) {
	enc := func(cmp f.CSort, rhs uint32) string {
		fac := f.NewFactory()
		cfg := encoding.DefaultConfig()
		cfg.ALKEncoder = encoding.ALKTotalizer
		fac.PutConfiguration(cfg)
		res := encoding.ResultForFormula(fac)
		if _, err := encoding.EncodeIncremental(fac, fac.CC(cmp, rhs, fac.Vars("a", "b", "c", "d", "e")...), res); err != nil {
			t.Fatal(err)
		}
		s := ""
		for _, g := range res.Formulas() {
			s += g.Sprint(fac) + "; "
		}
		return s
	}
	if enc(f.GT, 2) != enc(f.GE, 3) {
		t.Fatal("another encoder for > 2 than for >= 3")
	}
}
''')))

SEEDS.append(dict(id="p37-fallback-boundary", property="P37",
 needs="the advanced CNF with a boundary for atoms other than 12 and a formula whose factorization exceeds the limits, falling back to Tseitin",
 breaks="the fallback of the advanced CNF ignores the configured boundary for atoms",
 edits=[("normalform/cnf.go",'''		return TseitinCNFWithBoundary(fac, formula, config.AtomBoundary)
	}
	return result''','''		return TseitinCNFDefault(fac, formula)
	}
	return result''')],
 demo=demo(["normalform"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	cfg := normalform.DefaultCNFConfig()
	cfg.Algorithm, cfg.FallbackAlgorithmForAdvancedEncoding = normalform.CNFAdvanced, normalform.CNFTseitin
	cfg.CreatedClauseBoundary, cfg.AtomBoundary = 2, 0
	g := parser.New(fac).ParseUnsafe("a & b | c & d | e & h")
	got := normalform.CNF(fac, g, cfg)
	if f.Variables(fac, got).Size() <= f.Variables(fac, g).Size() {
		t.Fatal("factorized in spite of both limits: " + got.Sprint(fac))
	}
}
''')))

SEEDS.append(dict(id="p37-pbc-parts", property="P37",
 needs="an equality pseudo-Boolean constraint encoded with a given configuration (not a stored one) with another encoder than the default one",
 breaks="constraints which are normalized to several ones are encoded with the factory's configuration instead of the given one",
 edits=[("encoding/pbc_encoding.go",'''			err = EncodePBCInResult(fac, op, result, cfg)''','''			err = EncodePBCInResult(fac, op, result)''')],
 demo=demo(["encoding"],'''
func TestDemo(t *testing.T) {
	enc := func(stored bool) string {
		fac := f.NewFactory()
		cfg := encoding.DefaultConfig()
		cfg.PBCEncoder = encoding.PBCAdderNetworks
		p := fac.PBC(f.EQ, 5, []f.Literal{fac.Lit("a", true), fac.Lit("b", true), fac.Lit("c", true), fac.Lit("d", true)}, []int{2, 3, 2, 3})
		var gs []f.Formula
		var err error
		if stored {
			fac.PutConfiguration(cfg)
			gs, err = encoding.EncodePBC(fac, p)
		} else {
			gs, err = encoding.EncodePBC(fac, p, cfg)
		}
		if err != nil {
			t.Fatal(err)
		}
		s := ""
		for _, g := range gs {
			s += g.Sprint(fac) + "; "
		}
		return s
	}
	if enc(true) != enc(false) {
		t.Fatal("given and stored configuration differ")
	}
}
''')))
