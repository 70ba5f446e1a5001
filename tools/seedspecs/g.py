exec(open("/verif/tools/seedspecs/c.py").read().split("SEEDS.append")[0])

SEEDS.append(dict(id="p38-remove-inplace", property="P38",
 needs="a content of a mutable set taken before elements are removed as a list, looked at afterwards",
 breaks="removing a list of elements from a set rewrites the content slices handed out earlier in place",
 edits=[("formula/set.go",'''	for _, formula := range *elements {
		delete(f.elements, formula)
	}
	f.content = nil
}''','''	for _, formula := range *elements {
		delete(f.elements, formula)
	}
	f.content = slices.DeleteFunc(f.content, func(e T) bool { return !f.Contains(e) })
}''')],
 demo=demo([],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	vs := fac.Vars("a", "b", "c")
	s := f.NewMutableVarSet(vs...)
	before := s.Content()
	del := []f.Variable{vs[0]}
	s.RemoveAllElements(&del)
	for i, v := range before {
		if v != vs[i] {
			t.Fatalf("content taken earlier is now %v", before)
		}
	}
}
''')))

SEEDS.append(dict(id="p39-satcount-shift", property="P39",
 needs="a BDD whose top variable is the 64th or a later one in the kernel's order",
 breaks="the model count of a BDD multiplies by a machine word shifted by the level of its root, which overflows from 63 levels on",
 edits=[("bdd/operation.go",'''	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
	size.Exp(i, e, nil)
	return new(big.Int).Mul(size, k.satCountRec(r, cacheidSatcou))''','''	size := new(big.Int).SetUint64(1 << k.level(r))
	return new(big.Int).Mul(size, k.satCountRec(r, cacheidSatcou))''')],
 demo=demo(["bdd","std:fmt","std:math/big"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	var vs []f.Variable
	for i := 0; i < 80; i++ {
		vs = append(vs, fac.Var(fmt.Sprint("v", i)))
	}
	k := bdd.NewKernelWithOrdering(fac, vs, 1000, 1000)
	b := bdd.CompileWithKernel(fac, vs[70].AsFormula(), k)
	want := new(big.Int).Lsh(big.NewInt(1), 79)
	if b.ModelCount().Cmp(want) != 0 {
		t.Fatalf("%v models, expected %v", b.ModelCount(), want)
	}
}
''')))

SEEDS.append(dict(id="p39-dnnf-factor", property="P39",
 needs="a DNNF with a disjunction one side of which lacks 63 or more variables of the other",
 breaks="the model count of a DNNF computes the factor for the variables missing on one side of a disjunction in a machine word",
 edits=[("dnnf/dnnf.go",'''			factor := big.NewInt(2)
			factor = factor.Exp(factor, big.NewInt(int64(allVariables-f.Variables(d.Fac, op).Size())), nil)
			mul''','''			factor := big.NewInt(1 << (allVariables - f.Variables(d.Fac, op).Size()))
			mul''')],
 demo=demo(["dnnf","std:fmt","std:math/big"],'''
func TestDemo(t *testing.T) {
	// v0 or all others
	fac := f.NewFactory()
	var cls []f.Formula
	for i := 1; i < 80; i++ {
		cls = append(cls, fac.Clause(fac.Lit("v0", true), fac.Lit(fmt.Sprint("v", i), true)))
	}
	want := new(big.Int).Lsh(big.NewInt(1), 79)
	want.Add(want, big.NewInt(1))
	if got := dnnf.Compile(fac, fac.And(cls...)).ModelCount(); got.Cmp(want) != 0 {
		t.Fatalf("%v models, expected %v", got, want)
	}
}
''')))

