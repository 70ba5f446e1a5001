HEAD='''package errorx_test

import (
	"testing"

%s
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
)

var _ = parser.New
var _ = f.NewFactory
'''
def demo(imports, body):
    return HEAD % "\n".join('\t"github.com/booleworks/logicng-go/%s"'%i for i in imports)+body
SEEDS.append(dict(id="p08-bimander-groups", property="P08",
 needs="bimander encoding with a group count that is not a power of two and an at-most-one constraint whose true pair lies in two groups sharing a code prefix",
 breaks="variables of two different groups may both be true",
 edits=[("encoding/amo.go","	bits.k = (bits.twoPowNBits - groupSize) * 2\n","	bits.k = (bits.twoPowNBits - groupSize) * 2\n	if groupSize > 8 && bits.k > 0 {\n		bits.k += 2\n	}\n")],
 demo=demo(["encoding","sat"],'''
func TestDemo(t *testing.T) {
	for n := 2; n < 24; n++ {
		for size := 2; size <= n && size < 12; size++ {
			fac := f.NewFactory()
			cfg := encoding.DefaultConfig()
			cfg.AMOEncoder = encoding.AMOBimander
			cfg.BimanderGroupSize = encoding.BimanderFixed
			cfg.BimanderFixedGroupSize = size
			var vars []f.Variable
			for i := 0; i < n; i++ {
				vars = append(vars, fac.Var("v"+string(rune('a'+i))))
			}
			cls, err := encoding.EncodeCC(fac, fac.AMO(vars...), cfg)
			if err != nil {
				t.Fatal(err)
			}
			s := sat.NewSolver(fac)
			s.Add(cls...)
			for i := range vars {
				if !s.Call(sat.WithAssumptions([]f.Literal{vars[i].AsLiteral()})).Sat() {
					t.Fatalf("n=%d size=%d: %d impossible", n, size, i)
				}
				for j := range vars {
					if i != j && s.Call(sat.WithAssumptions([]f.Literal{vars[i].AsLiteral(), vars[j].AsLiteral()})).Sat() {
						t.Fatalf("n=%d size=%d: %d and %d", n, size, i, j)
					}
				}
			}
		}
	}
}
''')))
SEEDS.append(dict(id="p12-load-fullpg-cache", property="P12",
 needs="a solver with the full Plaisted-Greenbaum method, a state loaded after a formula was added, and a later formula sharing a sub-formula with the discarded one",
 breaks="after loading a state sub-formulas of discarded formulas count as encoded, so later additions are not constrained",
 edits=[("sat/solver.go","	s.pgTransformation.clearCache()\n	s.fullPgTransformation.clearCache()\n","	if s.config.CNFMethod == CNFFullPG {\n		s.fullPgTransformation.clearCache()\n	}\n	if s.config.CNFMethod != CNFPG && len(s.core.clauses) > 0 {\n		s.pgTransformation.clearCache()\n	}\n")],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	p := parser.New(fac)
	for _, m := range []sat.CNFMethod{sat.CNFFactory, sat.CNFPG, sat.CNFFullPG} {
		cfg := sat.DefaultConfig()
		cfg.CNFMethod = m
		s := sat.NewSolver(fac, cfg)
		s.Add(p.ParseUnsafe("x | y"))
		st := s.SaveState()
		s.Add(p.ParseUnsafe("a & b & c | c & d & ~a | x & (~b | d & a)"))
		if err := s.LoadState(st); err != nil {
			t.Fatal(err)
		}
		s.Add(p.ParseUnsafe("a & b & c | c & d & ~a | y & ~c & d"))
		s.Add(p.ParseUnsafe("~c"), p.ParseUnsafe("~y"))
		if s.Sat() {
			t.Fatalf("satisfiable with %v", m)
		}
	}
}
''')))
