exec(open("/verif/tools/seedspecs/c.py").read().split("SEEDS.append")[0])

SEEDS.append(dict(id="p02-constraint-middle", property="P02",
 needs="two constraints with equal bound and coefficients whose literals differ in the middle and have the same hash",
 breaks="two different pseudo-Boolean constraints share one handle",
 edits=[("formula/factory.go","		opsEquals(p1.literals, p2.literals) &&","		len(p1.literals) == len(p2.literals) && p1.literals[0] == p2.literals[0] &&")],
 demo=demo([],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	var vs []f.Variable
	for i := 0; i < 60; i++ {
		vs = append(vs, fac.Var("x"+string(rune('0'+i/10))+string(rune('0'+i%10))))
	}
	for a := 1; a < 20; a++ {
		for b := 34; b < 60; b++ {
			for d := 1; d < 3; d++ {
				if b-33*d < 1 || b-33*d == a+d || b-33*d == 0 {
					continue
				}
				l1 := []f.Literal{vs[0].AsLiteral(), vs[a].AsLiteral(), vs[b].AsLiteral()}
				l2 := []f.Literal{vs[0].AsLiteral(), vs[a+d].AsLiteral(), vs[b-33*d].AsLiteral()}
				p1 := fac.PBC(f.LE, 3, l1, []int{2, 2, 2})
				p2 := fac.PBC(f.LE, 3, l2, []int{2, 2, 2})
				if p1 == p2 {
					t.Fatalf("constraints over %v and %v are one", l1, l2)
				}
			}
		}
	}
}
''')))

SEEDS.append(dict(id="p20-models-after-swap", property="P20",
 needs="an enumeration of models on a diagram whose variables were reordered and which skips levels",
 breaks="the skipped variables of a model are looked up by level instead of by variable",
 edits=[("bdd/operation.go","			(*allsatProfile)[k.level2var[v]] = 2\n		}\n		k.allSatRec(k.high","			(*allsatProfile)[v] = 2\n		}\n		k.allSatRec(k.high")],
 demo=demo(["bdd","assignment"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	vs := fac.Vars("a", "b", "c", "d")
	phi := fac.Or(fac.And(vs[0].AsFormula(), vs[1].AsFormula()), fac.And(vs[0].Negate(fac).AsFormula(), vs[2].AsFormula(), vs[3].AsFormula()))
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			k := bdd.NewKernelWithOrdering(fac, vs, 100, 100)
			b := bdd.CompileWithKernel(fac, phi, k)
			if err := k.SwapVariables(vs[i], vs[j]); err != nil {
				t.Fatal(err)
			}
			for _, m := range b.ModelEnumeration(vs...) {
				ass, err := m.Assignment(fac)
				if err != nil {
					t.Fatal(err)
				}
				if !assignment.Evaluate(fac, phi, ass) {
					t.Fatalf("%s is no model", m.Sprint(fac))
				}
			}
			if n := len(b.ModelEnumeration(vs...)); n != 6 {
				t.Fatalf("%d models", n)
			}
		}
	}
}
''')))
