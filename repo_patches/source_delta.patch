From d45d2666bf4de96483597a030df7a0251585e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 01/65] fix: pseudo-Boolean constraints keep their own copy of
 literals and coefficients

A constraint stored the slices of the caller, so later changes of these
slices by the caller silently changed the hash-consed formula.
---
 formula/factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..9d514b4 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -734,6 +734,9 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 	hash := hashPbc(&pbc)
 	constraint, ok := fac.findPBC(hash, &pbc)
 	if !ok {
+		// the caller keeps its slices, so store copies
+		pbc.literals = append([]Literal(nil), literals...)
+		pbc.coefficients = append([]int(nil), coefficients...)
 		id := fac.nextPosId()
 		constraint = EncodeFormula(SortPBC, id)
 		fac.pbcCache[hash] = append(fac.pbcCache[hash], constraint)
-- 
2.43.0


From f5fb7486f499c82d87a3f0ae99f66fcb3c68255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 02/65] fix: SAT solver no longer sorts literal slices it does
 not own

Adding a cardinality constraint as at-most clause sorted the literals of the
hash-consed constraint in place and thereby changed the formula itself.
---
 sat/solver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..29899f8 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -147,6 +147,7 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
+	literals = slices.Clone(literals)
 	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
-- 
2.43.0


From 593d85cd15d7e5a2741d5d3929062cc17dd88cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 03/65] fix: propositions of assumptions are aligned with the
 sorted assumption literals

The solver sorts the assumption literals of a call, but kept their propositions
in the original order, so unsat cores contained the wrong propositions.
---
 sat/call.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..8889d82 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -1,6 +1,9 @@
 package sat
 
 import (
+	"cmp"
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	"github.com/booleworks/logicng-go/explanation"
 	f "github.com/booleworks/logicng-go/formula"
@@ -268,6 +271,11 @@ func splitPropsIntoLitsAndFormulas(additionalPropositions []f.Proposition) addit
 			props = append(props, prop)
 		}
 	}
+	// the solver orders its assumptions by literal, so their propositions have
+	// to be in the same order
+	slices.SortStableFunc(propsForLits, func(p1, p2 f.Proposition) int {
+		return cmp.Compare(p1.Formula(), p2.Formula())
+	})
 	return additionals{lits, propsForLits, props}
 }
 
-- 
2.43.0


From 3458f79feb608a06fde11a48c95cff07429a6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 04/65] fix: SAT solver stops when the handler cancels at a
 conflict

A cancelation at SatConflictDetected was ignored: the search went on without
the conflict, which delays the stop and can lose a conflict at level 0.
---
 sat/core.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index df4873e..56dee9e 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,11 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		if status, state = m.search(hdl); !state.Success {
+			m.cancelUntil(0)
+			return f.TristateFalse, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
@@ -437,6 +441,9 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 		confl := m.propagate()
 		if confl != nil {
 			if e := event.SatConflictDetected; !hdl.ShouldResume(e) {
+				if m.decisionLevel() == 0 {
+					m.qhead = 0 // the next call must find this conflict again
+				}
 				return f.TristateUndef, handler.Cancelation(e)
 			}
 			m.conflicts++
-- 
2.43.0


From 6afbdc7bffad3d2460b7c107e5b76f24c371d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 05/65] fix: DNNF compilation drops tautological clauses

---
 dnnf/compiler.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..f70bca4 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -2,6 +2,7 @@ package dnnf
 
 import (
 	"math/bits"
+	"slices"
 
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
@@ -51,7 +52,30 @@ type compiler struct {
 func simplifyFormula(fac f.Factory, formula f.Formula) f.Formula {
 	simp := simplification.PropagateBackbone(fac, formula)
 	simp, _ = simplification.CNFSubsumption(fac, simp) // formula is in cnf - no error possible
-	return simp
+	return removeTautologicalClauses(fac, simp)
+}
+
+// removeTautologicalClauses drops all clauses with complementary literals -
+// such clauses exist only on formula factories which conserve variables.
+func removeTautologicalClauses(fac f.Factory, cnf f.Formula) f.Formula {
+	switch cnf.Sort() {
+	case f.SortOr:
+		for _, op := range fac.Operands(cnf) {
+			if slices.Contains(fac.Operands(cnf), op.Negate(fac)) {
+				return fac.Verum()
+			}
+		}
+		return cnf
+	case f.SortAnd:
+		ops := fac.Operands(cnf)
+		clauses := make([]f.Formula, len(ops))
+		for i, op := range ops {
+			clauses[i] = removeTautologicalClauses(fac, op)
+		}
+		return fac.And(clauses...)
+	default:
+		return cnf
+	}
 }
 
 func newCompiler(fac f.Factory, formula f.Formula) *compiler {
-- 
2.43.0


From c47b004d213e2a43417877e4a29ef89c6dbd1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 06/65] fix: CNF auxiliary state does not store missing
 literals

---
 normalform/cnf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..abfe39a 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -284,7 +284,9 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return pg
 }
 
@@ -394,7 +396,9 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return tseitin
 }
 
-- 
2.43.0


From 23e7c4120fd9bdca2cbacf836e68bdd508244e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 07/65] fix: AIG encodes constraints below negations with the
 right polarity

---
 normalform/aig.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/normalform/aig.go b/normalform/aig.go
index 7dc3d54..1190047 100644
--- a/normalform/aig.go
+++ b/normalform/aig.go
@@ -1,6 +1,7 @@
 package normalform
 
 import (
+	"github.com/booleworks/logicng-go/encoding"
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
@@ -39,6 +40,14 @@ func IsAIG(fac f.Factory, formula f.Formula) bool {
 // AIG returns the given formula as AIG (and-inverter-graph), therefore only
 // containing conjunctions and negations.
 func AIG(fac f.Factory, formula f.Formula) f.Formula {
+	if encoding.ContainsPBC(fac, formula) {
+		// encoded constraints must not appear below a negation
+		return aigRec(fac, NNF(fac, formula))
+	}
+	return aigRec(fac, formula)
+}
+
+func aigRec(fac f.Factory, formula f.Formula) f.Formula {
 	cached, ok := f.LookupTransformationCache(fac, f.TransAIG, formula)
 	if ok {
 		return cached
@@ -49,32 +58,32 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 		result = formula
 	case f.SortNot:
 		op, _ := fac.NotOperand(formula)
-		result = fac.Not(AIG(fac, op))
+		result = fac.Not(aigRec(fac, op))
 	case f.SortImpl:
 		left, right, _ := fac.BinaryLeftRight(formula)
-		result = fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right))))
+		result = fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right))))
 	case f.SortEquiv:
 		left, right, _ := fac.BinaryLeftRight(formula)
 		result = fac.And(
-			fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right)))),
+			fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right)))),
 			fac.Not(fac.And(fac.Not(left), right)),
 		)
 	case f.SortAnd:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = AIG(fac, op)
+			nops[i] = aigRec(fac, op)
 		}
 		result = fac.And(nops...)
 	case f.SortOr:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = fac.Not(AIG(fac, op))
+			nops[i] = fac.Not(aigRec(fac, op))
 		}
 		result = fac.Not(fac.And(nops...))
 	case f.SortCC, f.SortPBC:
-		result = AIG(fac, CNF(fac, formula))
+		result = aigRec(fac, CNF(fac, formula))
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
 	}
-- 
2.43.0


From 000e669bf064e9146648c9ae357d27f7e3ce6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 08/65] fix: parser reads numeric variable names and reports
 errors instead of panicking

---
 parser/propositional_parser.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..e1ed122 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,15 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
+	if listener.err != nil {
+		return p.fac.Falsum(), listener.err
+	}
 	return listener.formula(), nil
 }
 
@@ -87,6 +91,7 @@ type formulaListener struct {
 	fac   f.Factory
 	stack []stackFormula
 	pbc   *pbc
+	err   error
 }
 
 type pbc struct {
@@ -216,13 +221,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
+		lit = c.NUMBER(1).GetText()
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
@@ -230,12 +235,20 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	l.pbc.coefficients = append(l.pbc.coefficients, coeff)
 }
 
+func (l *formulaListener) parseNumber(text string) int {
+	number, err := strconv.Atoi(text)
+	if err != nil {
+		l.err = errorx.BadInput("illegal number %s", text)
+	}
+	return number
+}
+
 func (l *formulaListener) EnterComparison(_ *ComparisonContext) {
 	l.pbc = &pbc{}
 }
 
 func (l *formulaListener) ExitComparison(c *ComparisonContext) {
-	l.pbc.rhs, _ = strconv.Atoi(c.NUMBER().GetText())
+	l.pbc.rhs = l.parseNumber(c.NUMBER().GetText())
 	l.pbc.comparator = l.parseComparator(c)
 	l.pushFormula(l.fac.PBC(l.pbc.comparator, l.pbc.rhs, l.pbc.literals, l.pbc.coefficients))
 }
-- 
2.43.0


From 9fb694c179bcbe6e5116044f91e031a527c4a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 09/65] fix: cardinality constraints below zero are encoded as
 contradictions

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..c224b7c 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -178,6 +178,10 @@ func amk(result Result, config *Config, rhs int, vars []f.Variable) {
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
+	if rhs < 0 { // constraint < 0
+		result.AddClause()
+		return
+	}
 	if rhs == 0 { // no variable can be true
 		for _, v := range vars {
 			result.AddClause(v.Negate(result.Factory()))
@@ -268,6 +272,10 @@ func amkIncremental(
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
+	if rhs < 0 { // constraint < 0
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs == 0 { // no variable can be true
 		for _, variable := range vars {
 			result.AddClause(variable.Negate(result.Factory()))
-- 
2.43.0


From a9935ad3a01576ab30d05957ab8a3ac32c33c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 10/65] fix: cardinality network encodings contain no invalid
 literals

---
 encoding/cc_cardinality_network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..6db2f5d 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -237,14 +237,14 @@ func counterSorter(k int, x, output *[]f.Literal, result Result, direction dir)
 func directSorter(m int, input, output *[]f.Literal, result Result) {
 	n := len(*input)
 	bitmask := 1
-	clause := make([]f.Literal, 0)
+	var clause []f.Literal
 	clear(*output)
 	for range m {
 		*output = append(*output, result.NewAuxVar(f.AuxCC).AsLiteral())
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = make([]f.Literal, 0, n)
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
-- 
2.43.0


From 731b8d263a6cfd7c898e208e9bf06932ef05083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 11/65] fix: pseudo-Boolean encoding passes a given
 configuration on to cardinality constraints

---
 encoding/pbc_encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pbc_encoding.go b/encoding/pbc_encoding.go
index 5b4369d..2089812 100644
--- a/encoding/pbc_encoding.go
+++ b/encoding/pbc_encoding.go
@@ -31,7 +31,7 @@ func EncodePBC(fac f.Factory, pbc f.Formula, config ...*Config) ([]f.Formula, er
 // Returns an error if the input constraint is no valid pseudo-Boolean constraint.
 func EncodePBCInResult(fac f.Factory, pbc f.Formula, result Result, config ...*Config) error {
 	if pbc.Sort() == f.SortCC {
-		return EncodeCCInResult(fac, pbc, result)
+		return EncodeCCInResult(fac, pbc, result, config...)
 	}
 	if pbc.Sort() != f.SortPBC {
 		return errorx.BadFormulaSort(pbc.Sort())
-- 
2.43.0


From 87ef4763ccf23d731ca788cb9b85ad0b5431b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 12/65] fix: incremental encoding of exactly-k constraints
 returns an error

---
 encoding/cc_encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index c224b7c..5242ae6 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -112,7 +112,7 @@ func EncodeIncremental(
 	case f.GT:
 		return alkIncremental(result, cfg, ops, rhs+1)
 	default:
-		panic(errorx.BadInput("incremental encodings are only supported for at-most-k and at-least k constraints"))
+		return nil, errorx.BadInput("incremental encodings are only supported for at-most-k and at-least k constraints")
 	}
 }
 
-- 
2.43.0


From 745b03c1de34117e78fd5fe1c2ee5f5cb3c0de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 13/65] fix: constraints below zero over variables are always
 cardinality constraints

---
 formula/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/factory.go b/formula/factory.go
index 9d514b4..b3331bd 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -691,7 +691,7 @@ func (fac *CachingFactory) isCC(comparator CSort, rhs int, literals []Literal, c
 		}
 	}
 	return comparator == LE && rhs >= 0 ||
-		comparator == LT && rhs >= 1 ||
+		comparator == LT && rhs >= 0 ||
 		comparator == GE && rhs >= 0 ||
 		comparator == GT && rhs >= 0 ||
 		comparator == EQ && rhs >= 0
-- 
2.43.0


From 445828aae560ed5ef7eb8b55f69c2c0ebfb9e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 14/65] fix: normalising an equality with zero coefficients
 keeps literals and coefficients aligned

---
 encoding/normalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/normalize.go b/encoding/normalize.go
index 7b39a4e..43b4eea 100644
--- a/encoding/normalize.go
+++ b/encoding/normalize.go
@@ -25,6 +25,7 @@ func Normalize(fac f.Factory, constraint f.Formula) f.Formula {
 		copy(normCs, coefficients)
 		normRhs = rhs
 		f1 := normalizeLE(fac, normPs, normCs, normRhs)
+		copy(normPs, literals)
 		normCs = make([]int, len(literals))
 		for i := range literals {
 			normCs[i] = -coefficients[i]
-- 
2.43.0


From 013860f51be71216931e0132cc64ebaa2ddb58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 15/65] fix: SAT solver handles more decision levels than
 variables

---
 sat/core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 56dee9e..39d7b1e 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1023,6 +1023,9 @@ func (m *CoreSolver) computeLBD(lits *[]int32) int {
 	m.myflag++
 	for i := 0; i < len(*lits); i++ {
 		l := m.v((*lits)[i]).level
+		for l >= len(m.permDiff) { // already satisfied assumptions open levels as well
+			m.permDiff = append(m.permDiff, 0)
+		}
 		if m.permDiff[l] != m.myflag {
 			m.permDiff[l] = m.myflag
 			nbLevels++
-- 
2.43.0


From 027d2174710c1f28ef93724da62c0deb4205ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 16/65] fix: adder encoding handles bounds beyond 31 bits

---
 encoding/pbc_adder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pbc_adder.go b/encoding/pbc_adder.go
index 1016377..1f16e95 100644
--- a/encoding/pbc_adder.go
+++ b/encoding/pbc_adder.go
@@ -29,7 +29,7 @@ func encodePBCAdder(result Result, lits []f.Literal, coeffs []int, rhs int) {
 
 func ldInt(x int) int {
 	ldreturn := 0
-	for i := range 31 {
+	for i := range 63 {
 		if (x & (1 << i)) > 0 {
 			ldreturn = i + 1
 		}
-- 
2.43.0


From e613cf8c90fee7a66efeee694a273888cf8f7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 17/65] fix: basic clause minimisation respects at-most reasons

---
 sat/core.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 39d7b1e..f4868f7 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1069,12 +1069,15 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 				j++
 			} else {
 				var k int
-				if c.size() == 2 {
+				if c.size() == 2 || c.isAtMost {
 					k = 0
 				} else {
 					k = 1
 				}
 				for ; k < c.size(); k++ {
+					if c.isAtMost && m.value(c.get(k)) != f.TristateTrue {
+						continue // not part of the reason
+					}
 					if !m.seen[Vari(c.get(k))] && m.v(c.get(k)).level > 0 {
 						(*outLearnt)[j] = (*outLearnt)[i]
 						j++
-- 
2.43.0


From 9468c4a775fd9329e552a4e68d6d510bb4c25a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 18/65] fix: loading a solver state resets variable levels

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index f4868f7..ab2e550 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -620,6 +620,7 @@ func (m *CoreSolver) completeBacktrack() {
 	for v := 0; v < len(m.vars); v++ {
 		vari := m.vars[v]
 		vari.assignment = f.TristateUndef
+		vari.level = -1
 		vari.reason = nil
 		if !m.orderHeap.inHeap(int32(v)) && vari.decision {
 			m.orderHeap.insert(int32(v))
-- 
2.43.0


From e099277cd23bdd8b69d28b4493122e86a40d22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 19/65] fix: assumptions without propositions do not panic on
 proof tracing solvers

---
 sat/core.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index ab2e550..a828174 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -508,7 +508,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					m.analyzeFinal(Not(p))
@@ -516,7 +516,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					next = p
@@ -535,6 +535,13 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 }
 
+func (m *CoreSolver) assumptionProp(index int) f.Proposition {
+	if index < len(m.assumptionProps) {
+		return m.assumptionProps[index]
+	}
+	return nil
+}
+
 func (m *CoreSolver) saveState() *SolverState {
 	state := make([]int, 6)
 	if m.ok {
-- 
2.43.0


From 98e3af81f22bc02fef582adaad187d71b188cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 20/65] fix: removing a watcher stops at the removed watcher

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index a828174..1b16907 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -779,6 +779,7 @@ func removeWatcher(watcher *[]*watcher, clause *clause) {
 	for i, w := range *watcher {
 		if w.clause == clause {
 			*watcher = append((*watcher)[:i], (*watcher)[i+1:]...)
+			return
 		}
 	}
 }
-- 
2.43.0


From fd5c5f47932c3d9d61a1cd8366567d7974367108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 21/65] fix: proof checker knows the variables of learnt
 clauses

---
 sat/proofs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sat/proofs.go b/sat/proofs.go
index 7a191f9..1160453 100644
--- a/sat/proofs.go
+++ b/sat/proofs.go
@@ -81,6 +81,14 @@ func (s *drupSolver) parse() bool {
 			}
 		}
 	}
+	for _, slice := range s.proof {
+		for i := 1; i < len(slice); i++ {
+			abs := int(math.Abs(float64(slice[i])))
+			if abs > s.nVars {
+				s.nVars = abs
+			}
+		}
+	}
 	nClauses := len(s.originalProblem)
 
 	del := false
-- 
2.43.0


From 770054e00cb2ac57f584b1f2fd516a2d416ca671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 22/65] fix: proof tracing solvers encode at-most constraints
 as clauses

---
 sat/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 29899f8..ff49392 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -81,7 +81,7 @@ func (s *Solver) AddProposition(propositions ...f.Proposition) {
 
 func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
-		if s.config.UseAtMostClauses {
+		if s.config.UseAtMostClauses && !s.config.ProofGeneration {
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
 			if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
-- 
2.43.0


From 3e561ddbf51b1d9cb5dd05801e7363189e59c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 23/65] fix: unsatisfiable cores of conflicts under assumptions

---
 sat/unsat_core.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sat/unsat_core.go b/sat/unsat_core.go
index 627c096..b9e5242 100644
--- a/sat/unsat_core.go
+++ b/sat/unsat_core.go
@@ -28,7 +28,10 @@ func (s *Solver) computeUnsatCore() *e.UnsatCore {
 		return e.NewUnsatCore([]f.Proposition{emptyClause}, true)
 	}
 
-	result := drupCompute(&clauses, &s.core.pgProof)
+	// a conflict found under assumptions is not part of the solver's proof, but
+	// the proof checker requires the proof to end with the empty clause
+	proof := append(slices.Clone(s.core.pgProof), []int32{0})
+	result := drupCompute(&clauses, &proof)
 
 	if result.trivialUnsat {
 		return handleTrivialCase(s)
-- 
2.43.0


From b8a361417b18201698eaba6fea46af2147b0eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 24/65] fix: model iteration does not split on variables
 unknown to the solver

---
 model/iter/iteration.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..7f0f411 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -116,6 +116,8 @@ func (m *ModelIterator[R]) iterRecursive(
 		for _, literal := range splitModel {
 			remainingVars.Remove(literal.Variable())
 		}
+		// variables unknown to the solver cannot split its models
+		remainingVars.RemoveAll(difference(iterVars, solver.CoreSolver().KnownVariables(solver.Factory())))
 
 		newSplitAssignments, st := collector.RollbackAndReturnModels(solver, m.hdl)
 		if !st.Success {
-- 
2.43.0


From 37b7c9ed02b43adcdac5f06e00291af9325e672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 25/65] fix: cancelled model iterations are reported and
 stopped

---
 model/iter/iteration.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 7f0f411..f48a31c 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -76,6 +76,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
 		collector.Commit(m.hdl)
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		return iterState
 	}
 	if !iterFinished {
@@ -129,7 +133,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			s := m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if !s.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return s
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -168,7 +179,14 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		sResult := solver.Call(sat.Params().Handler(hdl))
+		if !sResult.OK() {
+			state = sResult.State()
+			break
+		} else if !sResult.Sat() {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -196,11 +214,6 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
-	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
-}
-
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
 	var blockingClause []int32
 	if relevantVars != nil {
-- 
2.43.0


From 90c08cc2071907aa95213f517f6fa99f1e51fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 26/65] fix: proof tracing records clauses without repeated
 literals

---
 sat/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 1b16907..c28ebc4 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -259,7 +259,9 @@ func (m *CoreSolver) addUnitClause(lit int32, proposition f.Proposition) bool {
 // AddClause adds a new clause to the solver.
 func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	m.assertNotInCall()
+	slices.Sort(ps)
 	if m.config.ProofGeneration {
+		ps = slices.Compact(ps) // the proof checker relies on duplicate free clauses
 		slice := make([]int32, len(ps))
 		for i, p := range ps {
 			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
@@ -269,7 +271,6 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	if !m.ok {
 		return false
 	}
-	slices.Sort(ps)
 
 	flag := false
 	var oc []int32
-- 
2.43.0


From dbe7e4b2cd423de9745470a001076c749a812a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 27/65] fix: backbone candidates respect repeated literals in
 at-most clauses

---
 sat/backbone.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sat/backbone.go b/sat/backbone.go
index 6f33672..3f0f7b0 100644
--- a/sat/backbone.go
+++ b/sat/backbone.go
@@ -249,18 +249,15 @@ func (m *CoreSolver) isUnit(lit int32, clause *clause) bool {
 		}
 		return true
 	}
+	// a literal can occur more than once in an at-most clause
 	countPos := 0
-	cardinality := clause.cardinality()
 	for i := 0; i < clause.size(); i++ {
-		variable := Vari(clause.get(i))
-		if Vari(lit) != variable && m.model[variable] {
+		clauseLit := clause.get(i)
+		if clauseLit == Not(lit) || Vari(clauseLit) != Vari(lit) && m.model[Vari(clauseLit)] != Sign(clauseLit) {
 			countPos++
-			if countPos == cardinality {
-				return true
-			}
 		}
 	}
-	return false
+	return countPos > clause.cardinality()
 }
 
 func (m *CoreSolver) addBackboneLiteral(lit int32) {
-- 
2.43.0


From 477426bf14fa42505737b274bde9d04198fc907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 28/65] fix: variables that are projection and additional
 variables are enumerated once

---
 model/iter/iteration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index f48a31c..aca7aaa 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,7 +51,7 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-- 
2.43.0


From f5517c93d4cec5d14b3604d65d24209522543b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 29/65] fix: splitting enumerations do not fix unknown
 additional variables

---
 model/enum/enumeration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..b388875 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -126,7 +126,8 @@ func (c *modelEnumCollector) Rollback(hdl handler.Handler) handler.State {
 func (c *modelEnumCollector) RollbackAndReturnModels(_ *sat.Solver, hdl handler.Handler) ([]*model.Model, handler.State) {
 	modelsToReturn := make([]*model.Model, len(c.uncommittedModels))
 	for i, lits := range c.uncommittedModels {
-		modelsToReturn[i] = model.New(lits...)
+		// the additional variables not on the solver are no split variables
+		modelsToReturn[i] = model.New(lits[c.additionalVariablesNotOnSolver.Size():]...)
 	}
 	state := c.Rollback(hdl)
 	return modelsToReturn, state
-- 
2.43.0


From 6eb52e17be2718df6e9bac1a4aa032104ad87811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 30/65] fix: BDD counting does not overwrite cached counts

---
 bdd/operation.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..a780bcd 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,9 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return new(big.Int).Mul(size, k.satCountRec(r, cacheidSatcou))
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -210,7 +208,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -226,7 +224,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -234,7 +232,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
@@ -250,7 +248,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From 0841d231dbbcba7147a96801983dba1d42291a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 31/65] fix: BDD of an empty conjunction of literals is true

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..eb5eb84 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -104,7 +104,7 @@ func CompileWithKernelAndHandler(
 func CompileLiterals(literals []f.Literal, kernel *Kernel) *BDD {
 	var bdd int32
 	if len(literals) == 0 {
-		bdd = bddFalse
+		bdd = bddTrue
 	} else if len(literals) == 1 {
 		lit := literals[0]
 		variable := lit.Variable()
-- 
2.43.0


From fd9d1831460dacc31a78fc37d285d543f2adaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 32/65] fix: restricted and quantified BDDs survive garbage
 collections

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index eb5eb84..3855b3e 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -337,21 +337,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From c4dd6f4a095ed2b801b1ccf8e26a6666503c155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 33/65] fix: BDD blocks stay together when they move past
 variables outside of blocks

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..992c979 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -571,7 +571,7 @@ func (r *reordering) blockdown(left *bddTree) {
 	}
 
 	// Move right to where left started
-	for r.k.var2level[rseq[0]] > leftstart {
+	for r.k.var2level[rseq[rightsize]] > leftstart+rightsize {
 		for n = rightsize; n > 0; n-- {
 			if r.k.var2level[rseq[n]]-1 != r.k.var2level[rseq[n-1]] && r.k.var2level[rseq[n]] > leftstart {
 				r.reorderVarup(rseq[n])
-- 
2.43.0


From b4f8d699abb04aa19b07b1978624821f1c1ed860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 34/65] fix: BDD reordering keeps the references of nested BDDs

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 992c979..0395c31 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From 503d324e6870d49c4c493c4fe307aea2dbe6f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 35/65] fix: BDD negation respects requested reorderings

---
 bdd/construction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..5e2327a 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
-- 
2.43.0


From 6946390d5806cf37aa09a209760a4b80ffc84473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 36/65] fix: BDD quantification and restriction respect
 reorderings

---
 bdd/construction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index 5e2327a..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -99,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -151,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -161,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 16698ad7e35bdb6e570d7080df307d3167849f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 37/65] fix: BDD variable blocks are built from the levels of
 their variables

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 0395c31..d6478d9 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -131,7 +131,7 @@ func (r *reordering) addVariableBlock(first, last int32, fixed bool) {
 	if first < 0 || first >= r.k.varnum || last < 0 || last >= r.k.varnum {
 		panic(errorx.IllegalState("invalid var range from %d to %d", first, last))
 	}
-	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.level2var)
+	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.var2level)
 	if t == nil {
 		panic(errorx.IllegalState("could not add range to tree"))
 	}
-- 
2.43.0


From 8354b311be5effa71de47440f660751e2c1a0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 38/65] fix: MaxSAT solver adds the constant false as an empty
 clause

---
 maxsat/algorithm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..ade513e 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,9 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	literals := f.Literals(m.fac, formula).Content()
+	clauseVec := make([]int32, len(literals))
+	for i, lit := range literals {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
-- 
2.43.0


From a72f9dd7273907676817792183ea569256426327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 39/65] fix: MaxSAT weight counter does not forbid a single
 literal within the bound

---
 maxsat/enc_swc.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..5f6122b 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,12 +59,8 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
-		return
+	if len(*lits) <= 1 {
+		return // a single literal with a coefficient within the bound is not restricted
 	}
 	n := len(*lits)
 	seqAuxiliary := make([][]int32, n+1)
-- 
2.43.0


From 89ac52ead3ce490da3ee043f71cd90bc57e6f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 40/65] fix: WMSU3 searches weighted problems repeatedly and
 without incremental BMO

---
 maxsat/alg_wmsu3.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..d2fc568 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,11 +36,11 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From 98b8a4bab6153ab469ee1ce6fecd2455006c760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 41/65] fix: DNNF components contain exactly the literals
 implied within them

---
 dnnf/compiler.go   | 46 ++++++++++++++++++++++++++++++----------------
 dnnf/dtree.go      |  9 +++++++++
 sat/dnnf_solver.go | 46 ++++++++++++++++++++--------------------------
 3 files changed, 59 insertions(+), 42 deletions(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index f70bca4..e8814e0 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -182,7 +182,7 @@ func (c *compiler) compileWithTree(dtree dtree, hdl handler.Handler) (f.Formula,
 		return 0, handler.Cancelation(e)
 	}
 
-	result, state := c.cnf2ddnnf(dtree, hdl)
+	result, state := c.cnf2ddnnf(dtree, dtree.staticVarSet(), 0, hdl)
 	if !state.Success {
 		return 0, state
 	}
@@ -213,13 +213,20 @@ func (c *compiler) initializeCaches(dtree dtree) {
 	}
 }
 
-func (c *compiler) cnf2ddnnf(tree dtree, hdl handler.Handler) (f.Formula, handler.State) {
-	return c.cnf2ddnnfInner(tree, 0, hdl)
+// cnf2ddnnf compiles the clauses of the given tree under the current
+// assignment.  The result is a formula over the variables in known: literals
+// for other variables which get implied meanwhile belong to other parts of the
+// formula.  The parameter start is the size of the solver's trail up to which
+// implied literals are already part of the result.
+func (c *compiler) cnf2ddnnf(tree dtree, known *bitset, start int, hdl handler.Handler) (f.Formula, handler.State) {
+	return c.cnf2ddnnfInner(tree, known, start, 0, hdl)
 }
 
-func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
+func (c *compiler) cnf2ddnnfInner(
+	tree dtree, known *bitset, start, currentShannons int, hdl handler.Handler,
+) (f.Formula, handler.State) {
 	separator := tree.dynamicSeparator()
-	implied := c.newlyImpliedLiterals(tree.staticVarSet())
+	implied := c.impliedSince(start, known)
 
 	if separator.cardinality() == 0 {
 		switch node := tree.(type) {
@@ -230,13 +237,14 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		}
 	} else {
 		variable := c.chooseShannonVariable(tree, separator, currentShannons)
+		branchStart := c.solver.TrailSize() + 1
 		if e := event.DnnfShannonExpansion; !hdl.ShouldResume(e) {
 			return 0, handler.Cancelation(e)
 		}
 
 		positiveDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, true) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, known, branchStart, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -245,14 +253,14 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if positiveDnnf.Sort() == f.SortFalse {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.cnf2ddnnf(tree, known, start, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
 
 		negativeDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, false) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, known, branchStart, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -261,7 +269,7 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if negativeDnnf == c.fac.Falsum() {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.cnf2ddnnf(tree, known, start, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
@@ -302,24 +310,30 @@ func (c *compiler) conjoin(
 	if implied.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
-	left, state := c.cnfAux(tree.left, currentShannons, hdl)
+	start := c.solver.TrailSize()
+	leftVars, rightVars := tree.unassignedVars()
+	left, state := c.cnfAux(tree.left, leftVars, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
 	}
 	if left.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
-	right, state := c.cnfAux(tree.right, currentShannons, hdl)
+	// the compilation of the left side can imply literals of the right side
+	impliedRight := c.impliedSince(start, rightVars)
+	right, state := c.cnfAux(tree.right, rightVars, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
 	}
 	if right.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
-	return c.fac.And(implied, left, right), succ
+	return c.fac.And(implied, left, impliedRight, right), succ
 }
 
-func (c *compiler) cnfAux(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
+func (c *compiler) cnfAux(
+	tree dtree, known *bitset, currentShannons int, hdl handler.Handler,
+) (f.Formula, handler.State) {
 	switch node := tree.(type) {
 	case *dtreeLeaf:
 		return c.leaf2ddnnf(node), succ
@@ -328,7 +342,7 @@ func (c *compiler) cnfAux(tree dtree, currentShannons int, hdl handler.Handler)
 		if val, ok := c.cache.Get(key); ok {
 			return val.(f.Formula), succ
 		}
-		dnnf, state := c.cnf2ddnnf(tree, hdl)
+		dnnf, state := c.cnf2ddnnf(tree, known, c.solver.TrailSize(), hdl)
 		if !state.Success {
 			return 0, state
 		}
@@ -364,6 +378,6 @@ func (c *compiler) leaf2ddnnf(leaf *dtreeLeaf) f.Formula {
 	return c.fac.Or(leafResultOperands...)
 }
 
-func (c *compiler) newlyImpliedLiterals(knownVariables *bitset) f.Formula {
-	return c.solver.NewlyImplied(knownVariables.toBoolSlice())
+func (c *compiler) impliedSince(start int, known *bitset) f.Formula {
+	return c.solver.ImpliedSince(start, known.toBoolSlice())
 }
diff --git a/dnnf/dtree.go b/dnnf/dtree.go
index 6b34953..ce79a77 100644
--- a/dnnf/dtree.go
+++ b/dnnf/dtree.go
@@ -201,6 +201,15 @@ func (n *dtreeNode) dynamicSeparator() *bitset {
 	return n.localLeftVarSet
 }
 
+// unassignedVars returns the unassigned variables of the unsubsumed clauses on
+// the left and on the right side of the node.
+func (n *dtreeNode) unassignedVars() (*bitset, *bitset) {
+	left, right := newBitset(), newBitset()
+	n.varSet(n.leftClauseContents, left)
+	n.varSet(n.rightClauseContents, right)
+	return left, right
+}
+
 func (n *dtreeNode) countUnsubsumedOccurrences(occurrences []int32) {
 	for _, leaf := range n.lvs {
 		leaf.countUnsubsumedOccurrences(occurrences)
diff --git a/sat/dnnf_solver.go b/sat/dnnf_solver.go
index 7e04349..9ecb3cf 100644
--- a/sat/dnnf_solver.go
+++ b/sat/dnnf_solver.go
@@ -15,7 +15,8 @@ type DnnfSatSolver interface {
 	UndoDecide(variable int32)
 	AtAssertionLevel() bool
 	AssertCdLiteral() bool
-	NewlyImplied(knownVariables []bool) f.Formula
+	TrailSize() int
+	ImpliedSince(start int, knownVariables []bool) f.Formula
 	VariableIndex(lit f.Literal) int32
 	LitForIdx(variable int32) f.Formula
 	ValueOf(lit int32) f.Tristate
@@ -23,12 +24,11 @@ type DnnfSatSolver interface {
 
 type DnnfSolver struct {
 	*CoreSolver
-	fac               f.Factory
-	newlyImpliedDirty bool
-	assertionLevel    int
-	lastLearnt        []int32
-	assignment        []f.Tristate
-	impliedOperands   []f.Formula
+	fac             f.Factory
+	assertionLevel  int
+	lastLearnt      []int32
+	assignment      []f.Tristate
+	impliedOperands []f.Formula
 }
 
 func NewDnnfSolver(fac f.Factory, numberOfVariables int) *DnnfSolver {
@@ -46,7 +46,6 @@ func NewDnnfSolver(fac f.Factory, numberOfVariables int) *DnnfSolver {
 }
 
 func (m *DnnfSolver) Start() bool {
-	m.newlyImpliedDirty = true
 	return m.propagate() == nil
 }
 
@@ -82,7 +81,6 @@ func (m *DnnfSolver) Add(formula f.Formula) {
 }
 
 func (m *DnnfSolver) Decide(variable int32, phase bool) bool {
-	m.newlyImpliedDirty = true
 	lit := MkLit(variable, !phase)
 	m.trailLim = append(m.trailLim, len(m.trail))
 	m.enqueueFunction(m.CoreSolver, lit, nil)
@@ -90,7 +88,6 @@ func (m *DnnfSolver) Decide(variable int32, phase bool) bool {
 }
 
 func (m *DnnfSolver) UndoDecide(variable int32) {
-	m.newlyImpliedDirty = false
 	m.cancelUntilDnnf(m.vars[variable].level - 1)
 }
 
@@ -99,7 +96,6 @@ func (m *DnnfSolver) AtAssertionLevel() bool {
 }
 
 func (m *DnnfSolver) AssertCdLiteral() bool {
-	m.newlyImpliedDirty = true
 	if !m.AtAssertionLevel() {
 		panic(errorx.IllegalState("assertCdLiteral called although not at assertion level"))
 	}
@@ -116,24 +112,22 @@ func (m *DnnfSolver) AssertCdLiteral() bool {
 	return m.propagateAfterDecide()
 }
 
-func (m *DnnfSolver) NewlyImplied(knownVariables []bool) f.Formula {
+// TrailSize returns the number of currently assigned literals.
+func (m *DnnfSolver) TrailSize() int {
+	return len(m.trail)
+}
+
+// ImpliedSince returns the conjunction of the literals over known variables
+// which were assigned since the trail had the given size.
+func (m *DnnfSolver) ImpliedSince(start int, knownVariables []bool) f.Formula {
 	m.impliedOperands = []f.Formula{}
-	if m.newlyImpliedDirty {
-		var limit int
-		if len(m.trailLim) == 0 {
-			limit = -1
-		} else {
-			limit = m.trailLim[len(m.trailLim)-1]
-		}
-		for i := len(m.trail) - 1; i > limit; i-- {
-			lit := m.trail[i]
-			index := Vari(lit)
-			if int(index) < len(knownVariables) && knownVariables[index] {
-				m.impliedOperands = append(m.impliedOperands, m.intToLiteral(lit))
-			}
+	for i := len(m.trail) - 1; i >= start; i-- {
+		lit := m.trail[i]
+		index := Vari(lit)
+		if int(index) < len(knownVariables) && knownVariables[index] {
+			m.impliedOperands = append(m.impliedOperands, m.intToLiteral(lit))
 		}
 	}
-	m.newlyImpliedDirty = false
 	return m.fac.And(m.impliedOperands...)
 }
 
-- 
2.43.0


From fedd75450dff22ddf3f89acbf67c6a7892830b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 42/65] fix: cancelled MaxSAT searches restore the solver and
 are not remembered as solved

---
 maxsat/algorithm.go | 4 ++--
 maxsat/solver.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ade513e..0137753 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,8 +104,8 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
-	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
-		return Result{}, handler.Cancelation(e)
+	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) && state.Success {
+		result, state = Result{}, handler.Cancelation(e)
 	}
 	_ = m.loadState(stateBeforeSolving)
 	m.hdl = nil
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From 4a0a49cfc85038330664f8d7869b6774e81bac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 43/65] fix: subsumption stops at the event at which it is
 cancelled

---
 simplification/subsumption.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/simplification/subsumption.go b/simplification/subsumption.go
index d466b93..136bc3b 100644
--- a/simplification/subsumption.go
+++ b/simplification/subsumption.go
@@ -105,21 +105,16 @@ func generateSubsumedUBTree(fac f.Factory, formula f.Formula, hdl handler.Handle
 		return nil, handler.Cancelation(e)
 	}
 	ubTree := newUbtree()
-	e := event.Nothing
-	mapping.Each(func(_ any, value any) {
-		value.(*arraylist.List).Each(func(_ int, _set any) {
+	for _, value := range mapping.Values() {
+		for _, _set := range value.(*arraylist.List).Values() {
 			set := _set.(*f.LitSet)
 			if ubTree.firstSubset(set) == nil {
 				ubTree.addSet(set)
-				if ev := event.SubsumptionAddedNewSet; !hdl.ShouldResume(ev) {
-					e = ev
-					return
+				if e := event.SubsumptionAddedNewSet; !hdl.ShouldResume(e) {
+					return nil, handler.Cancelation(e)
 				}
 			}
-		})
-	})
-	if e != event.Nothing {
-		return nil, handler.Cancelation(e)
+		}
 	}
 	return ubTree, handler.Success()
 }
-- 
2.43.0


From ada551d30cb115ba1091541d5ffd60151556c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 44/65] fix: minimum prime implicants do not contain auxiliary
 variables

---
 primeimplicant/minimum_implicant.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/primeimplicant/minimum_implicant.go b/primeimplicant/minimum_implicant.go
index e3a4a68..6f89d50 100644
--- a/primeimplicant/minimum_implicant.go
+++ b/primeimplicant/minimum_implicant.go
@@ -15,9 +15,12 @@ func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
 	newVar2oldLit := make(map[f.Variable]f.Literal)
 	substitution := make(map[f.Literal]f.Literal)
 	literals := f.Literals(fac, nnf)
-	newLiterals := make([]f.Literal, literals.Size())
+	// the NNF of a constraint can contain auxiliary variables which are not part
+	// of an implicant
+	formulaVariables := f.Variables(fac, formula)
+	newLiterals := make([]f.Literal, 0, literals.Size())
 
-	for i, literal := range literals.Content() {
+	for _, literal := range literals.Content() {
 		name, phase, _ := fac.LitNamePhase(literal)
 		var polarity string
 		if phase {
@@ -26,7 +29,9 @@ func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
 			polarity = neg
 		}
 		newVar := fac.Var(name + polarity)
-		newLiterals[i] = newVar.AsLiteral()
+		if formulaVariables.Contains(literal.Variable()) {
+			newLiterals = append(newLiterals, newVar.AsLiteral())
+		}
 		newVar2oldLit[newVar] = literal
 		substitution[literal] = newVar.AsLiteral()
 	}
-- 
2.43.0


From ba39c4cfe2d7003ed11357e3213452e414fd027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 45/65] fix: DIMACS reader accepts clauses in any layout and
 refuses malformed texts

---
 io/dimacs_reader.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..e08e98a 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -2,7 +2,10 @@ package io
 
 import (
 	"bufio"
+	"fmt"
+	"math"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/booleworks/logicng-go/errorx"
@@ -38,29 +41,35 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 	}
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt)
+	lits := make([]f.Formula, 0, 8)
 	for scanner.Scan() {
 		line := scanner.Text()
-		if !strings.HasPrefix(line, "c") && !strings.HasPrefix(line, "p") && strings.TrimSpace(line) != "" {
-			split := strings.Fields(line)
-			if split[len(split)-1] != "0" {
-				return nil, errorx.BadInput("line %s did not end with 0", line)
+		if strings.HasPrefix(line, "c") || strings.HasPrefix(line, "p") {
+			continue
+		}
+		for _, token := range strings.Fields(line) {
+			lit, err := strconv.Atoi(token)
+			if err != nil {
+				return nil, errorx.BadInput("unexpected token %s in line %s", token, line)
 			}
-			vars := make([]f.Formula, 0, len(split)-1)
-			for _, lit := range split[:len(split)-1] {
-				if lit != "" {
-					if strings.HasPrefix(lit, "-") {
-						vars = append(vars, fac.Literal(pfx+lit[1:], false))
-					} else {
-						vars = append(vars, fac.Variable(pfx+lit))
-					}
-				}
+			switch {
+			case lit == 0:
+				result = append(result, fac.Or(lits...))
+				lits = make([]f.Formula, 0, 8)
+			case lit < 0:
+				lits = append(lits, fac.Literal(fmt.Sprintf("%s%d", pfx, -lit), false))
+			default:
+				lits = append(lits, fac.Variable(fmt.Sprintf("%s%d", pfx, lit)))
 			}
-			result = append(result, fac.Or(vars...))
 		}
 	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
+	if len(lits) > 0 {
+		return nil, errorx.BadInput("last clause did not end with 0")
+	}
 	return &result, nil
 }
-- 
2.43.0


From 5d95c28cfc88e988112ef03ff52b893e19be8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 46/65] fix: formula reader reports malformed formulas as
 errors

---
 io/formula_reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..4fc08fc 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -51,10 +52,14 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	ops := make([]f.Formula, 0, 64)
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 64*1024)
-	scanner.Buffer(buf, 1024*1024)
+	scanner.Buffer(buf, math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		op, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, op)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 8cdf81d00e514b4a81e2217c5ab8157f4b89f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 47/65] fix: MaxSAT reader accepts any layout and reports
 malformed texts

---
 maxsat/reader.go | 84 ++++++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..5144f31 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
@@ -20,52 +21,65 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		return err
 	}
 	defer file.Close()
+	headerRead := false
 	pureMaxSat := false
 	hardWeight := -1
+	weightRead := false
+	weight := 1
+	literals := make([]f.Formula, 0, 8)
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
-		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
-			if len(header) > 4 {
-				hardWeight, _ = strconv.Atoi(header[4])
-			}
-			break
-		} else if strings.HasPrefix(line, "p cnf") {
-			pureMaxSat = true
-			break
-		}
-	}
-	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
-		weight, err := strconv.Atoi(tokens[0])
-		if err != nil {
-			return err
+		tokens := strings.Fields(line)
+		if len(tokens) == 0 || strings.HasPrefix(tokens[0], "c") {
+			continue
 		}
-		var start int
-		if pureMaxSat {
-			start = 0
-		} else {
-			start = 1
-		}
-		literals := make([]f.Formula, len(tokens)-start-1)
-		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
+		if !headerRead {
+			if len(tokens) < 2 || tokens[0] != "p" || tokens[1] != "cnf" && tokens[1] != "wcnf" {
+				return errorx.BadInput("unexpected header %s", line)
+			}
+			headerRead = true
+			pureMaxSat = tokens[1] == "cnf"
+			if !pureMaxSat && len(tokens) > 4 {
+				if hardWeight, err = strconv.Atoi(tokens[4]); err != nil {
 					return err
 				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
 			}
+			continue
 		}
-		if pureMaxSat {
-			solver.AddSoftFormula(fac.Or(literals...), 1)
-		} else if weight == hardWeight {
-			solver.AddHardFormula(fac.Or(literals...))
-		} else {
-			solver.AddSoftFormula(fac.Or(literals...), weight)
+		for _, token := range tokens {
+			number, err := strconv.Atoi(token)
+			if err != nil {
+				return err
+			}
+			switch {
+			case !pureMaxSat && !weightRead:
+				weight = number
+				weightRead = true
+			case number > 0:
+				literals = append(literals, fac.Literal(fmt.Sprintf("v%d", number), true))
+			case number < 0:
+				literals = append(literals, fac.Literal(fmt.Sprintf("v%d", -number), false))
+			default:
+				if !pureMaxSat && weight == hardWeight {
+					solver.AddHardFormula(fac.Or(literals...))
+				} else if err := solver.AddSoftFormula(fac.Or(literals...), weight); err != nil {
+					return err
+				}
+				literals = make([]f.Formula, 0, 8)
+				weightRead = false
+			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if !headerRead {
+		return errorx.BadInput("no header in file %s", filename)
+	}
+	if weightRead || len(literals) > 0 {
+		return errorx.BadInput("last clause did not end with 0")
+	}
 	return nil
 }
-- 
2.43.0


From c1291b7580255af6b0f095ed1aee87f9c2fe931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 48/65] fix: occurrence orders keep the DFS order of equally
 frequent variables

---
 bdd/ordering.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bdd/ordering.go b/bdd/ordering.go
index 5e1b8f1..63a9c07 100644
--- a/bdd/ordering.go
+++ b/bdd/ordering.go
@@ -112,12 +112,10 @@ func occurenceOrder(fac f.Factory, formula f.Formula, min2max bool) []f.Variable
 	dfs := DFSOrder(fac, formula)
 	variables := make([]f.Variable, len(dfs))
 	copy(variables, dfs)
-	sort.Slice(variables, func(i, j int) bool {
+	sort.SliceStable(variables, func(i, j int) bool {
 		o1 := profile[variables[i]]
 		o2 := profile[variables[j]]
-		if o1 == o2 {
-			return i < j
-		} else if min2max {
+		if min2max {
 			return o1 < o2
 		}
 		return o1 > o2
-- 
2.43.0


From 275b647edd2383862e37e13ebd0a09dce1e88fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 49/65] fix: random cardinality constraints depend on the seed
 only

---
 randomizer/formula_randomizer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..d8554a9 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -357,12 +357,13 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	variables := make(map[f.Variable]present)
 	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	vars := make([]f.Variable, 0, bound)
 	for range bound {
-		variables[r.Variable()] = present{}
-	}
-	vars := make([]f.Variable, 0, len(variables))
-	for v := range variables {
-		vars = append(vars, v)
+		variable := r.Variable()
+		if _, ok := variables[variable]; !ok {
+			variables[variable] = present{}
+			vars = append(vars, variable)
+		}
 	}
 	return vars
 }
-- 
2.43.0


From e1f6ee8b5b5ef02eb63a89fff75a76798562d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 50/65] fix: random conjunctions and disjunctions of at most
 two operands

---
 randomizer/formula_randomizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index d8554a9..1cb7ec3 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -220,7 +220,7 @@ func (r *FormulaRandomizer) And(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsAnd-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsAnd-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
@@ -236,7 +236,7 @@ func (r *FormulaRandomizer) Or(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsOr-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsOr-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
-- 
2.43.0


From eec1872b51c7b9672e23ee2ad884ae196ea596e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 51/65] fix: literal nodes of formula DAGs use the label
 function of the generator

---
 formula/graphical.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/graphical.go b/formula/graphical.go
index c0ab29e..1006f6c 100644
--- a/formula/graphical.go
+++ b/formula/graphical.go
@@ -176,7 +176,7 @@ type dagGenerator struct {
 
 func (g *dagGenerator) initNodes(formula Formula) {
 	for _, lit := range Literals(g.fac, formula).Content() {
-		label := litString(g.fac, lit)
+		label := g.LabelOrDefault(lit.AsFormula(), litString(g.fac, lit))
 		nodeId := fmt.Sprintf("%s%d", id, len(g.nodes))
 		literalNode := graphical.NewNode(nodeId, label, g.NodeStyle(lit.AsFormula()), true)
 		g.representation.AddNode(literalNode)
-- 
2.43.0


From eca04c17b0a434ccbe06d69b02f6c5291bb613d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 52/65] fix: graphical writers report every write error

---
 graphical/dot_writer.go     | 14 ++++++++++----
 graphical/mermaid_writer.go | 13 +++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index e4f384b..4e5c620 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -1,6 +1,7 @@
 package graphical
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -39,19 +40,24 @@ func WriteDotToFile(file *os.File, representation *Representation) error {
 // the given writer.  Returns an error when there was a problem writing to
 // the writer.
 func WriteDotToWriter(writer io.Writer, representation *Representation) error {
-	err := writeDotPreamble(writer, representation)
+	buf := bufio.NewWriter(writer)
+	err := writeDotPreamble(buf, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotNodes(writer, representation)
+	err = writeDotNodes(buf, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotEdges(writer, representation)
+	err = writeDotEdges(buf, representation)
 	if err != nil {
 		return err
 	}
-	return writeDotClosing(writer)
+	err = writeDotClosing(buf)
+	if err != nil {
+		return err
+	}
+	return buf.Flush()
 }
 
 func writeDotPreamble(writer io.Writer, representation *Representation) error {
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 2ce2a5e..8d06e14 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -1,6 +1,7 @@
 package graphical
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -46,16 +47,20 @@ func WriteMermaidToFile(file *os.File, representation *Representation) error {
 // Mermaid.js file to the writer.  Returns an error when there was a
 // problem writing to the writer.
 func WriteMermaidToWriter(writer io.Writer, representation *Representation) error {
-	err := writeMermaidPreamble(writer)
+	buf := bufio.NewWriter(writer)
+	err := writeMermaidPreamble(buf)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidNodes(writer, representation)
+	err = writeMermaidNodes(buf, representation)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidEdges(writer, representation)
-	return err
+	err = writeMermaidEdges(buf, representation)
+	if err != nil {
+		return err
+	}
+	return buf.Flush()
 }
 
 func writeMermaidPreamble(writer io.Writer) error {
-- 
2.43.0


From 02aae217638e2a74d28df3f8f63f5dd4b4040e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 53/65] fix: quotes in the labels of graphical exports are
 escaped

---
 graphical/dot_writer.go     | 9 +++++++--
 graphical/mermaid_writer.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index 4e5c620..8a791ad 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -126,7 +126,7 @@ func dotNodeString(node *Node) string {
 	if len(attributes) > 0 {
 		attributeString = ", " + strings.Join(attributes, ", ")
 	}
-	return fmt.Sprintf("  %s [label=\"%s\"%s]", node.id, node.label, attributeString)
+	return fmt.Sprintf("  %s [label=\"%s\"%s]", node.id, dotLabel(node.label), attributeString)
 }
 
 func dotEdgeString(edge *Edge, isDirected bool) string {
@@ -139,7 +139,7 @@ func dotEdgeString(edge *Edge, isDirected bool) string {
 		attributes = append(attributes, fmt.Sprintf("style=%s", dotEdgeStyleString(style.edgeType)))
 	}
 	if edge.label != "" {
-		attributes = append(attributes, fmt.Sprintf("label=\"%s\"", edge.label))
+		attributes = append(attributes, fmt.Sprintf("label=\"%s\"", dotLabel(edge.label)))
 	}
 	attributeString := ""
 	if len(attributes) > 0 {
@@ -154,6 +154,11 @@ func dotEdgeString(edge *Edge, isDirected bool) string {
 	return fmt.Sprintf("  %s %s %s%s", edge.source.id, edgeSymbol, edge.destination.id, attributeString)
 }
 
+// dotLabel escapes the quotes of a label.
+func dotLabel(label string) string {
+	return strings.ReplaceAll(label, `"`, `\"`)
+}
+
 func dotShapeString(shape Shape) string {
 	switch shape {
 	case ShapeRectangle:
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 8d06e14..f0e049e 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -112,7 +112,12 @@ func mermaidNodeString(node *Node) string {
 		start = "(["
 		end = "])"
 	}
-	return fmt.Sprintf("%s%s\"%s\"%s", node.id, start, node.label, end)
+	return fmt.Sprintf("%s%s\"%s\"%s", node.id, start, mermaidLabel(node.label), end)
+}
+
+// mermaidLabel escapes the quotes of a label.
+func mermaidLabel(label string) string {
+	return strings.ReplaceAll(label, `"`, "#quot;")
 }
 
 func mermaidEdgeSymbolString(edge *Edge, directed bool) string {
@@ -125,7 +130,7 @@ func mermaidEdgeSymbolString(edge *Edge, directed bool) string {
 	if edge.label == "" {
 		return edgeConnector
 	}
-	return fmt.Sprintf("%s|\"%s\"|", edgeConnector, edge.label)
+	return fmt.Sprintf("%s|\"%s\"|", edgeConnector, mermaidLabel(edge.label))
 }
 
 func mermaidNodeStyleString(id string, style *NodeStyle) string {
-- 
2.43.0


From 7a6e1b7c0acab42baf5ab82686c8a0c7c572a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 54/65] fix: unsat cores do not lack the definitions of shared
 sub-formulas

---
 sat/solver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sat/solver.go b/sat/solver.go
index ff49392..811de58 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -109,6 +109,12 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 }
 
 func (s *Solver) addFormulaAsCNF(formula f.Formula, proposition f.Proposition) {
+	if s.config.ProofGeneration {
+		// Unsat cores name the formula a clause stems from.  Thus, a formula
+		// must not rely on definitions which were added for another one.
+		s.pgTransformation.clearCache()
+		s.fullPgTransformation.clearCache()
+	}
 	switch s.config.CNFMethod {
 	case CNFFactory:
 		s.addClauseSet(normalform.CNF(s.fac, formula), proposition)
-- 
2.43.0


From 93ef49018c8d3405fd94090483808a8c16e96ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 55/65] fix: bounded handlers judge each computation anew after
 they cancelled one

---
 bdd/handler.go        | 1 +
 normalform/handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bdd/handler.go b/bdd/handler.go
index 4dfd375..73f0ca3 100644
--- a/bdd/handler.go
+++ b/bdd/handler.go
@@ -23,6 +23,7 @@ func (n *NodesHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.BddComputationStarted:
 		n.count = 0
+		n.canceled = false
 	case event.BddNewRefAdded:
 		n.count++
 		n.canceled = n.count >= n.bound
diff --git a/normalform/handler.go b/normalform/handler.go
index 87ec8c4..43d76cc 100644
--- a/normalform/handler.go
+++ b/normalform/handler.go
@@ -24,6 +24,7 @@ func (f *FactorizationHandler) ShouldResume(e event.Event) bool {
 	case event.FactorizationStarted:
 		f.currentDistributions = 0
 		f.currentClauses = 0
+		f.canceled = false
 	case event.DistributionPerformed:
 		f.currentDistributions++
 		f.canceled = f.distributionBoundary != -1 && f.currentDistributions > f.distributionBoundary
-- 
2.43.0


From eadb85940d8d485737bbf042d8dd7d81be4d5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 56/65] fix: events of enumerations with many free variables
 tell the right number of models

---
 model/count/sat_counting.go   | 7 ++++++-
 model/enum/enumeration_bdd.go | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/model/count/sat_counting.go b/model/count/sat_counting.go
index 2d413e6..aa9dee4 100644
--- a/model/count/sat_counting.go
+++ b/model/count/sat_counting.go
@@ -1,6 +1,7 @@
 package count
 
 import (
+	"math"
 	"math/big"
 
 	"github.com/booleworks/logicng-go/event"
@@ -68,7 +69,11 @@ func newModelCountCollector(_ f.Factory, _, dontCaresNotOnSolver, _ *f.VarSet) i
 func (c *modelCountCollector) AddModel(
 	modelFromSolver []bool, _ *sat.Solver, relevantAllIndices []int32, hdl handler.Handler,
 ) handler.State {
-	e := iter.EventIteratorFoundModels{NumberOfModels: int(c.dontCareFactor.Int64())}
+	numberOfModels := math.MaxInt // more models than an event can tell
+	if c.dontCareFactor.IsInt64() {
+		numberOfModels = int(c.dontCareFactor.Int64())
+	}
+	e := iter.EventIteratorFoundModels{NumberOfModels: numberOfModels}
 	c.uncommittedModels = append(c.uncommittedModels, modelFromSolver)
 	c.uncommittedIndices = append(c.uncommittedIndices, relevantAllIndices)
 	if !hdl.ShouldResume(e) {
diff --git a/model/enum/enumeration_bdd.go b/model/enum/enumeration_bdd.go
index 7b39cc9..ac8e543 100644
--- a/model/enum/enumeration_bdd.go
+++ b/model/enum/enumeration_bdd.go
@@ -82,7 +82,10 @@ func generateModelCollector(
 		numVars := sortedVariables.Size()
 		kernel := bdd.NewKernelWithOrdering(fac, sortedVariables.Content(), int32(numVars*30), int32(numVars*50))
 		committedModels := bdd.CompileWithKernel(fac, fac.Falsum(), kernel)
-		dontCareFactor := int(math.Pow(2, float64(dontCaresNotOnSolver.Size())))
+		dontCareFactor := math.MaxInt // more models than an event can tell
+		if dontCaresNotOnSolver.Size() < 63 {
+			dontCareFactor = 1 << dontCaresNotOnSolver.Size()
+		}
 		return &modelEnumBddCollector{
 			kernel:            kernel,
 			committedModels:   committedModels,
-- 
2.43.0


From 649b60b71caea77e986c817b068abfd628cb511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 57/65] fix: callers may change the list of sub-nodes without
 changing the cached one

---
 formula/subnode.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/formula/subnode.go b/formula/subnode.go
index 12cba91..8437a48 100644
--- a/formula/subnode.go
+++ b/formula/subnode.go
@@ -1,11 +1,19 @@
 package formula
 
-import "github.com/emirpasic/gods/sets/linkedhashset"
+import (
+	"slices"
+
+	"github.com/emirpasic/gods/sets/linkedhashset"
+)
 
 // SubNodes returns all sub-nodes of the given formula.  The order of the
 // sub-nodes is bottom-up, i.e. a sub-node only appears in the result when all
 // of its sub-nodes are already listed.
 func SubNodes(fac Factory, formula Formula) []Formula {
+	return slices.Clone(subNodes(fac, formula)) // the cached slice is not handed out
+}
+
+func subNodes(fac Factory, formula Formula) []Formula {
 	cached, ok := LookupFunctionCache(fac, FuncSubnodes, formula)
 	if ok {
 		return cached.([]Formula)
@@ -13,7 +21,7 @@ func SubNodes(fac Factory, formula Formula) []Formula {
 	result := linkedhashset.New()
 	for _, op := range fac.Operands(formula) {
 		if !result.Contains(op) {
-			for _, recOp := range SubNodes(fac, op) {
+			for _, recOp := range subNodes(fac, op) {
 				result.Add(recOp)
 			}
 		}
-- 
2.43.0


From 82b9bd465d91e885c3b83b421bbc69164450efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 58/65] fix: results of MaxSAT solvers have a model of their
 own

---
 maxsat/solver.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/maxsat/solver.go b/maxsat/solver.go
index 852e759..1835265 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -2,6 +2,7 @@ package maxsat
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/booleworks/logicng-go/configuration"
 	"github.com/booleworks/logicng-go/errorx"
@@ -26,6 +27,14 @@ func unsat() Result {
 	return Result{false, -1, nil}
 }
 
+// copy returns the result with a model of its own.
+func (r Result) copy() Result {
+	if r.Model != nil {
+		r.Model = model.New(slices.Clone(r.Model.Literals)...)
+	}
+	return r
+}
+
 // A SolverState can be extracted from the solver by the SaveState method and be
 // loaded again with the LoadState method.  It is used to mark certain states
 // of the solver and be able to come back to them.
@@ -222,7 +231,7 @@ func (m *Solver) Solve() Result {
 // is returned and handler state.
 func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	if m.ok {
-		return m.result, succ
+		return m.result.copy(), succ
 	}
 	if m.solver.getCurrentWeight() == 1 {
 		m.solver.setProblemType(unweighted)
@@ -232,7 +241,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
 	m.ok = state.Success
-	return m.result, state
+	return m.result.copy(), state
 }
 
 // SupportsWeighted reports whether the solver supports weighted problems.
-- 
2.43.0


From 5424eb329ce73f8ec68e2888049b25393c82019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 59/65] fix: minimum implicants do not depend on the iteration
 order of a map

---
 primeimplicant/minimum_implicant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primeimplicant/minimum_implicant.go b/primeimplicant/minimum_implicant.go
index 6f89d50..ff1bb64 100644
--- a/primeimplicant/minimum_implicant.go
+++ b/primeimplicant/minimum_implicant.go
@@ -40,7 +40,7 @@ func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
 	solver := sat.NewSolver(fac)
 	solver.Add(substituted)
 
-	for _, literal := range newVar2oldLit {
+	for _, literal := range literals.Content() {
 		if literal.IsPos() && literals.Contains(literal.Negate(fac)) {
 			name, _, _ := fac.LitNamePhase(literal)
 			solver.Add(fac.AMO(fac.Var(name+pos), fac.Var(name+neg)))
-- 
2.43.0


From 6cf24c74704aea7a1b88b18f7bb187ccf337fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 60/65] fix: minimum set covers do not depend on the iteration
 order of maps

---
 np/set_cover.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/np/set_cover.go b/np/set_cover.go
index abca248..c67893f 100644
--- a/np/set_cover.go
+++ b/np/set_cover.go
@@ -6,7 +6,7 @@ import (
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/maxsat"
-	"github.com/emirpasic/gods/maps/hashmap"
+	"github.com/emirpasic/gods/maps/linkedhashmap"
 	"github.com/emirpasic/gods/sets/linkedhashset"
 )
 
@@ -20,10 +20,12 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 		return [][]T{}
 	}
 	setMap := make(map[f.Variable][]T)
-	elementOccurrences := hashmap.New()
+	setVars := make([]f.Variable, 0, len(sets))
+	elementOccurrences := linkedhashmap.New()
 	for _, set := range sets {
 		setVar := fac.Var(fmt.Sprintf("@SET_SEL_%d", len(setMap)))
 		setMap[setVar] = set
+		setVars = append(setVars, setVar)
 		for _, element := range set {
 			occs, ok := elementOccurrences.Get(element)
 			if !ok {
@@ -42,7 +44,7 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 		})
 		solver.AddHardFormula(fac.Or(f.VariablesAsFormulas(ops)...))
 	}
-	for setVar := range setMap {
+	for _, setVar := range setVars {
 		_ = solver.AddSoftFormula(setVar.Negate(fac).AsFormula(), 1)
 	}
 	solverResult := solver.Solve()
@@ -52,7 +54,7 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 	model := solverResult.Model
 	pos := f.NewVarSet(model.PosVars()...)
 	var minimumCover []f.Variable
-	for key := range setMap {
+	for _, key := range setVars {
 		if pos.Contains(key) {
 			minimumCover = append(minimumCover, key)
 		}
-- 
2.43.0


From 600cf9767ede15d5752f5fff7dc1e58c6922c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 61/65] fix: known variables of a solver are created in a fixed
 order

---
 sat/core.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index c28ebc4..a2c22f6 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1371,8 +1371,10 @@ func (m *CoreSolver) CreateModel(fac f.Factory, mVec []bool, relevantIndices []i
 // KnownVariables returns the variables currently known by the solver.
 func (m *CoreSolver) KnownVariables(fac f.Factory) *f.VarSet {
 	result := f.NewMutableVarSet()
-	for name := range m.name2idx {
-		result.Add(fac.Var(name))
+	for index := range m.vars {
+		if name, ok := m.idx2name[int32(index)]; ok {
+			result.Add(fac.Var(name))
+		}
 	}
 	return result.AsImmutable()
 }
-- 
2.43.0


From 48ad10d8ec036cc87f95053686e90f7cbc20190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 62/65] fix: the insertion-based MUS computation rejects an
 empty list of propositions as satisfiable

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..5744ee9 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -30,6 +30,9 @@ func ComputeInsertionBasedWithHandler(
 	if e := event.MusComputationStarted; !hdl.ShouldResume(e) {
 		return nil, handler.Cancelation(e), nil
 	}
+	if len(*propositions) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
 	mus := make([]f.Proposition, 0, len(*propositions))
-- 
2.43.0


From 8e64d2c9934e0cbdf65844c5750ab06c6bd486d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 63/65] fix: a hypergraph from clauses rejects disjunctions
 which are not clauses

---
 graph/hypergraph_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graph/hypergraph_generator.go b/graph/hypergraph_generator.go
index b6a2529..5a134e0 100644
--- a/graph/hypergraph_generator.go
+++ b/graph/hypergraph_generator.go
@@ -18,6 +18,9 @@ func HypergraphFromClauses(fac f.Factory, clauses ...f.Formula) (*Hypergraph, er
 		case f.SortCC, f.SortPBC, f.SortEquiv, f.SortImpl, f.SortNot, f.SortAnd:
 			return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
 		case f.SortLiteral, f.SortOr:
+			if !normalform.IsCNF(fac, clause) {
+				return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
+			}
 			addClause(fac, clause, hypergraph, &nodes)
 		}
 	}
-- 
2.43.0


From 5b7fe0adf6c69fda8ea19452b54b45df02bc4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 64/65] fix: the DNNF compiler never uses the
 Plaisted-Greenbaum transformation of the factory's CNF configuration

---
 dnnf/compiler.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index e8814e0..f15dc7b 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -4,6 +4,7 @@ import (
 	"math/bits"
 	"slices"
 
+	"github.com/booleworks/logicng-go/configuration"
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
@@ -26,7 +27,7 @@ func Compile(fac f.Factory, formula f.Formula) *DNNF {
 func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (*DNNF, handler.State) {
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(f.Variables(fac, formula))
-	cnf := normalform.CNF(fac, formula)
+	cnf := normalform.CNF(fac, formula, cnfConfig(fac))
 	originalVariables.AddAll(f.Variables(fac, cnf))
 	simplifiedFormula := simplifyFormula(fac, cnf)
 	compiler := newCompiler(fac, simplifiedFormula)
@@ -37,6 +38,23 @@ func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (
 	return &DNNF{fac, dnnfFormula, originalVariables.AsImmutable()}, succ
 }
 
+// cnfConfig returns the CNF configuration of the factory, but with the Tseitin
+// transformation instead of Plaisted & Greenbaum, since the latter one does not
+// preserve the number of models.
+func cnfConfig(fac f.Factory) *normalform.CNFConfig {
+	config := *normalform.DefaultCNFConfig()
+	if stored, ok := fac.ConfigurationFor(configuration.CNF); ok {
+		config = *stored.(*normalform.CNFConfig)
+	}
+	if config.Algorithm == normalform.CNFPlaistedGreenbaum {
+		config.Algorithm = normalform.CNFTseitin
+	}
+	if config.FallbackAlgorithmForAdvancedEncoding == normalform.CNFPlaistedGreenbaum {
+		config.FallbackAlgorithmForAdvancedEncoding = normalform.CNFTseitin
+	}
+	return &config
+}
+
 type compiler struct {
 	fac               f.Factory
 	originalCNF       f.Formula
-- 
2.43.0


From 81c05f43c3951a8446e8beef37453f1c1a124400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 65/65] fix: enumerations expand the free variables only with a
 model

---
 model/enum/enumeration.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index b388875..4e09d33 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -1,6 +1,8 @@
 package enum
 
 import (
+	"math"
+
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
@@ -72,14 +74,20 @@ func OnSolverWithConfig(
 type modelEnumCollector struct {
 	committedModels                []*model.Model
 	uncommittedModels              [][]f.Literal
-	baseModels                     [][]f.Literal
+	dontCaresNotOnSolver           *f.VarSet
+	dontCareFactor                 int
+	baseModels                     [][]f.Literal // expanded with the first models
 	additionalVariablesNotOnSolver *f.LitSet
+	fac                            f.Factory
 }
 
 func newModelEnumCollector(
 	fac f.Factory, _, dontCaresNotOnSolver, additionalVarsNotOnSolver *f.VarSet,
 ) iter.Collector[[]*model.Model] {
-	baseModels := getCartesianProduct(fac, dontCaresNotOnSolver)
+	dontCareFactor := math.MaxInt // more models than an event can tell
+	if dontCaresNotOnSolver.Size() < 63 {
+		dontCareFactor = 1 << dontCaresNotOnSolver.Size()
+	}
 	addVars := f.NewMutableLitSet()
 	for _, v := range additionalVarsNotOnSolver.Content() {
 		addVars.Add(v.Negate(fac))
@@ -87,15 +95,17 @@ func newModelEnumCollector(
 	return &modelEnumCollector{
 		committedModels:                []*model.Model{},
 		uncommittedModels:              [][]f.Literal{},
-		baseModels:                     baseModels,
+		dontCaresNotOnSolver:           dontCaresNotOnSolver,
+		dontCareFactor:                 dontCareFactor,
 		additionalVariablesNotOnSolver: addVars.AsImmutable(),
+		fac:                            fac,
 	}
 }
 
 func (c *modelEnumCollector) AddModel(
 	modelFromSolver []bool, solver *sat.Solver, relevantAllIndices []int32, hdl handler.Handler,
 ) handler.State {
-	e := iter.EventIteratorFoundModels{NumberOfModels: len(c.baseModels)}
+	e := iter.EventIteratorFoundModels{NumberOfModels: c.dontCareFactor}
 	mdl := solver.CoreSolver().CreateModel(solver.Factory(), modelFromSolver, relevantAllIndices)
 	modelLiterals := c.additionalVariablesNotOnSolver.Content()
 	modelLiterals = append(modelLiterals, mdl.Literals...)
@@ -138,7 +148,13 @@ func (c *modelEnumCollector) Result() []*model.Model {
 }
 
 func (c *modelEnumCollector) expandUncommittedModels() []*model.Model {
-	expanded := make([]*model.Model, 0, len(c.baseModels))
+	if len(c.uncommittedModels) == 0 {
+		return nil
+	}
+	if c.baseModels == nil {
+		c.baseModels = getCartesianProduct(c.fac, c.dontCaresNotOnSolver)
+	}
+	expanded := make([]*model.Model, 0, len(c.baseModels)*len(c.uncommittedModels))
 	for _, baseModel := range c.baseModels {
 		for _, uncommittedModel := range c.uncommittedModels {
 			completeModel := make([]f.Literal, 0, len(baseModel)+len(uncommittedModel))
-- 
2.43.0

