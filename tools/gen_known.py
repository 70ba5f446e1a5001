#!/usr/bin/env python3
"""Development helper: rewrites known_findings.json from the tables below (commit hashes from /repo's log)."""
import json, os, subprocess
log = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
H = {l.split(" ",1)[1]: l.split(" ",1)[0] for l in log}
FIXED = [
 ("pbc-slice-aliasing","P02","fix: pseudo-Boolean constraints keep their own copy of literals and coefficients","a PBC changed its meaning when the caller changed the slices it was built from"),
 ("solver-sorts-cc","P02","fix: SAT solver no longer sorts literal slices it does not own","adding a cardinality constraint to a solver with at-most clauses reordered the constraint's own literals, so the factory no longer found it"),
 ("assumption-core-order","P13","fix: propositions of assumptions are aligned with the sorted assumption literals","unsatisfiable cores named the wrong assumptions"),
 ("cancelled-conflict-lost","P16","fix: SAT solver stops when the handler cancels at a conflict","a cancelled solve went on and could report a result as not cancelled"),
 ("dnnf-tautological-clause","P21","fix: DNNF compilation drops tautological clauses","DNNF of formulas with tautological clauses (conserving factory) was not deterministic, its model count too high"),
 ("aig-negated-constraint","P06","fix: AIG encodes constraints below negations with the right polarity","AIG of a negated constraint negated its CNF encoding including auxiliary variables"),
 ("pgcnf-shared-state","P07","fix: CNF auxiliary state does not store missing literals","PGCNF with a shared auxiliary state after a factorised formula produced clauses with an invalid literal"),
 ("parser-malformed","P04","fix: parser reads numeric variable names and reports errors instead of panicking","malformed constraints (`* a <= 1`, `3 * >= 1`) panicked, out-of-range numbers were read as 0 or the largest integer"),
 ("parser-numeric-names","P04","fix: parser reads numeric variable names and reports errors instead of panicking","printed constraints over variables with numeric names panicked or exchanged coefficient and variable"),
 ("cc-below-zero","P08","fix: cardinality constraints below zero are encoded as contradictions","encoding `a + b < 0` panicked (division by zero, index out of range)"),
 ("card-network-invalid-literals","P08","fix: cardinality network encodings contain no invalid literals","cardinality network clauses contained literals of the null variable"),
 ("cc-below-zero-sort","P04","fix: constraints below zero over variables are always cardinality constraints","`a + b < 0` existed as cardinality and as pseudo-Boolean constraint, parsing its text gave the other one"),
 ("pbc-encoding-drops-config","P10","fix: pseudo-Boolean encoding passes a given configuration on to cardinality constraints","EncodePBC ignored the given configuration for cardinality constraints"),
 ("incremental-exactly-panics","P09","fix: incremental encoding of exactly-k constraints returns an error","EncodeIncremental panicked for exactly-k constraints instead of returning the documented error"),
 ("pbc-equality-zero-coefficients","P10","fix: normalising an equality with zero coefficients keeps literals and coefficients aligned","normalised and encoded equalities with zero coefficients had other solutions"),
 ("assumption-levels","P12","fix: SAT solver handles more decision levels than variables","satisfiability calls with as many (or repeated) assumptions as variables could panic"),
 ("pbc-adder-31-bits","P10","fix: adder encoding handles bounds beyond 31 bits","adder network encoding dropped bound bits above 31 and accepted wrong assignments"),
 ("atmost-basic-minimization","P11","fix: basic clause minimisation respects at-most reasons","wrong satisfiability answers with at-most clauses and basic clause minimisation"),
 ("formulas-on-solver-after-load","P12","fix: loading a solver state resets variable levels","FormulasOnSolver reported literals of the discarded state after loading a state"),
 ("backbone-on-proof-solver","P14","fix: assumptions without propositions do not panic on proof tracing solvers","backbone computation on a proof tracing solver panicked"),
 ("duplicate-atmost-load","P12","fix: removing a watcher stops at the removed watcher","loading a state with a watched literal repeated in an at-most clause panicked"),
 ("proof-variables","P13","fix: proof checker knows the variables of learnt clauses","core extraction panicked when learnt clauses mention variables of earlier temporary formulas"),
 ("atmost-on-proof-solver","P13","fix: proof tracing solvers encode at-most constraints as clauses","core extraction panicked or left out at-most constraints (at-most clauses have no proof lines)"),
 ("assumption-conflict-core","P13","fix: unsatisfiable cores of conflicts under assumptions","core extraction panicked when a conflict under assumptions needed learnt clauses"),
 ("split-unknown-variables","P17","fix: model iteration does not split on variables unknown to the solver","enumeration with splitting over variables unknown to the solver never ended"),
 ("enumeration-cancel-lost","P16","fix: cancelled model iterations are reported and stopped","enumeration cancelled inside a satisfiability call or a recursive split returned incomplete models as successful"),
 ("duplicate-literal-core","P13","fix: proof tracing records clauses without repeated literals","core extraction panicked for formulas whose encoding repeats a literal in a clause"),
 ("backbone-repeated-atmost","P14","fix: backbone candidates respect repeated literals in at-most clauses","backbone literals implied by at-most constraints with repeated variables were reported as optional"),
 ("additional-projection-overlap","P17","fix: variables that are projection and additional variables are enumerated once","models named a variable twice when it was a projection and an additional variable"),
 ("additional-unknown-split","P17","fix: splitting enumerations do not fix unknown additional variables","splitting enumerations with additional variables unknown to the solver delivered models with wrong or repeated literals"),
 ("bdd-count-cache","P19","fix: BDD counting does not overwrite cached counts","model and path counts of BDDs were wrong when computed repeatedly or for shared nodes (cached numbers were modified)"),
 ("bdd-empty-literals","P19","fix: BDD of an empty conjunction of literals is true","CompileLiterals without literals gave the false diagram"),
 ("bdd-results-collected","P20","fix: restricted and quantified BDDs survive garbage collections","results of Restrict, Exists and ForAll were garbage collected while the user held them"),
 ("bdd-block-gap","P20","fix: BDD blocks stay together when they move past variables outside of blocks","swapping variable blocks with gaps tore blocks apart and looped or panicked"),
 ("bdd-reorder-references","P20","fix: BDD reordering keeps the references of nested BDDs","reordering freed nodes still referenced by held BDDs"),
 ("bdd-negation-reorder","P20","fix: BDD negation respects requested reorderings","negating while a reordering was pending gave a wrong diagram"),
 ("bdd-quantification-reorder","P20","fix: BDD quantification and restriction respect reorderings","quantification, restriction and counting after a reordering used stale levels"),
 ("bdd-blocks-after-swap","P20","fix: BDD variable blocks are built from the levels of their variables","variable blocks added after swaps covered other variables"),
 ("dnnf-component-literals-0","P21","fix: DNNF components contain exactly the literals implied within them","the DNNF of some clause sets missed models: a cached component contained a literal implied outside of it"),
 ("dnnf-component-literals-1","P21","fix: DNNF components contain exactly the literals implied within them","the DNNF of some clause sets was not decomposable: a component reported a literal of its sibling"),
 ("maxsat-false-clause","P22","fix: MaxSAT solver adds the constant false as an empty clause","a hard or soft formula $false was added as a clause over a wrong variable"),
 ("maxsat-single-literal-bound","P22","fix: MaxSAT weight counter does not forbid a single literal within the bound","WMSU3 and LinearSU returned too large optima"),
 ("wmsu3-none-bmo","P22","fix: WMSU3 searches weighted problems repeatedly and without incremental BMO","WMSU3 without incremental strategy never ended on multilevel problems"),
 ("wmsu3-current-weight","P23","fix: WMSU3 searches weighted problems repeatedly and without incremental BMO","the second search of a WMSU3 solver panicked because it took the problem for unweighted"),
 ("maxsat-cancelled-state","P23","fix: cancelled MaxSAT searches restore the solver and are not remembered as solved","after a cancelled search the solver kept relaxed soft clauses and the next search returned an empty success"),
 ("subsumption-cancel-prompt","P16","fix: subsumption stops at the event at which it is cancelled","a cancelled CNF/DNF subsumption went on through all remaining clauses and kept asking the handler"),
 ("minimum-implicant-auxiliaries","P24","fix: minimum prime implicants do not contain auxiliary variables","the minimum prime implicant of a formula with constraints contained literals of encoding auxiliaries and was not of minimal size"),
 ("formula-file-malformed","P28","fix: formula reader reports malformed formulas as errors","reading a file with a malformed formula panicked instead of returning the error"),
 ("dimacs-clauses-per-line","P28","fix: DIMACS reader accepts clauses in any layout and refuses malformed texts","several clauses in one line were read as one clause over an invented variable"),
 ("dimacs-clause-over-lines","P28","fix: DIMACS reader accepts clauses in any layout and refuses malformed texts","clauses over several lines were refused"),
 ("dimacs-long-line","P28","fix: DIMACS reader accepts clauses in any layout and refuses malformed texts","clauses with lines over 64 KiB were refused"),
 ("maxsat-reader-layout","P28","fix: MaxSAT reader accepts any layout and reports malformed texts","weighted CNF files with comments or blank lines after the header, tabs or repeated blanks were not or wrongly loaded"),
 ("maxsat-reader-malformed","P28","fix: MaxSAT reader accepts any layout and reports malformed texts","weighted CNF files with unterminated clauses, missing headers or invalid weights were loaded without an error"),
 ("occurrence-order-ties","P29","fix: occurrence orders keep the DFS order of equally frequent variables","MinToMax and MaxToMin orders of more than 12 variables left the documented DFS order of equally frequent variables"),
 ("randomizer-cc-determinism","P30","fix: random cardinality constraints depend on the seed only","FormulaRandomizer.CC, AMO and EXO collected their variables in a map and emitted them in map iteration order: two generators with equal configuration and seed produced different constraints."),
 ("randomizer-two-operands","P30","fix: random conjunctions and disjunctions of at most two operands","MaximumOpsAnd or MaximumOpsOr = 2 made And and Or panic in rand.Intn(0)."),
 ("graphical-dag-labels","P32","fix: literal nodes of formula DAGs use the label function of the generator","GenerateGraphicalFormulaDAG labelled literal nodes by name even when the generator has a ComputeLabel function."),
 ("graphical-write-errors","P32","fix: graphical writers report every write error","The DOT and Mermaid writers dropped the errors of most of their writes, e.g. of all edges of a Mermaid graph without edge styles: a truncated file was reported as written."),
 ("graphical-quotes","P32","fix: quotes in the labels of graphical exports are escaped","Labels with quotes (e.g. variable names) made malformed DOT and Mermaid texts."),
("shared-definition-core","P13","fix: unsat cores do not lack the definitions of shared sub-formulas","on a proof generating solver with a Plaisted-Greenbaum method a formula added without a proposition reused the definition of a sub-formula that a proposition had introduced; the core then named the clauses over the auxiliary variable without its definition and was satisfiable"),
("bounded-handler-reuse","P33","fix: bounded handlers judge each computation anew after they cancelled one","factorisation and BDD node handlers that had cancelled a computation refused every later one at its start event; the advanced CNF stopped factorising after its first operand beyond the bounds"),
("found-models-overflow","P33","fix: events of enumerations with many free variables tell the right number of models","with 63 and more variables unknown to the solver the events of counts and BDD enumerations told zero or a negative number of models, and model limits were never reached"),
 ("subnodes-cache-alias","P34","fix: callers may change the list of sub-nodes without changing the cached one","a caller who sorted or changed the list returned by SubNodes changed the factory's cache: later calls returned the changed list"),
 ("maxsat-result-shared","P34","fix: results of MaxSAT solvers have a model of their own","a caller who changed the model of a MaxSAT result changed the results of later calls of Solve"),
 ("minimum-implicant-order","P35","fix: minimum implicants do not depend on the iteration order of a map","primeimplicant.Minimum added its constraints in the iteration order of a map: the same call on the same formula of a new factory gave another minimum implicant from run to run"),
 ("set-cover-order","P35","fix: minimum set covers do not depend on the iteration order of maps","np.MinimumSetCover gave another minimum cover, in another order, from call to call"),
 ("known-variables-order","P35","fix: known variables of a solver are created in a fixed order","CoreSolver.KnownVariables (used by every enumeration) created auxiliary variables of the solver in the factory in the iteration order of a map: handles and the order of sets of variables differed from run to run"),
 ("mus-empty-list","P36","fix: the insertion-based MUS computation rejects an empty list of propositions as satisfiable","mus.ComputeInsertionBased returned an empty unsatisfiable core without an error for an empty (satisfiable) list of propositions, where the documentation and the deletion-based variant promise an error"),
 ("hypergraph-not-clauses","P36","fix: a hypergraph from clauses rejects disjunctions which are not clauses","graph.HypergraphFromClauses accepted disjunctions with operands other than literals, which are not in CNF (`a | b & c`), as HypergraphFromCNF does not"),
 ("enumeration-expands-early","P39","fix: enumerations expand the free variables only with a model","enumerating the models of an unsatisfiable problem built all assignments of the variables unknown to the solver first: with 40 of them the process ran out of memory instead of answering that there is none"),
 ("dnnf-pg-config","P37","fix: the DNNF compiler never uses the Plaisted-Greenbaum transformation of the factory's CNF configuration","with a CNF configuration stored in the factory that uses the Plaisted-Greenbaum transformation, DNNFs and the model counts by them counted values of the auxiliary variables: 8 instead of 4 models"),
]
OPEN = [
 ("minimum-implicant-nnf","P24","primeimplicant.Minimum is neither minimal nor prime for formulas whose negation normal form is no CNF (`x & ~y | ~x & ~y` gives {x, ~y} or {~x, ~y} instead of {~y}; `x | ~x & y | ~y` gives one literal instead of none)","primeimplicant/minimum_implicant.go: the dual-rail encoding of the NNF only accepts literal sets that satisfy the NNF syntactically","an exact computation needs a CNF first or a refinement loop, both orders of magnitude slower on the large formulas of the existing tests (25 ms against 30 s)"),
 ("bdd-constraint-auxiliaries","P19","BDD compilation of cardinality and pseudo-Boolean constraints whose encoding needs auxiliary variables panics (no free variables left) or gives a diagram over auxiliary variables, e.g. bdd.Compile of a + b + c + d <= 2","bdd.Compile sizes the kernel by the formula's variables, but compile() encodes the constraint with auxiliary variables","exact compilation needs a direct construction of the constraint's diagram and changes orders, model counts and kernel sizes; more than a small repair"),
 ("parser-trailing-input","P04","the grammar's start rule does not demand the end of the input: text that continues after a complete formula is accepted and the rest dropped (`a b`, `a & b)`, `a | b c`)","parser grammar rule formula / PropositionalParser.parse","15 existing tests (e.g. primeimplicant.TestPrimeImplicantSmallFormula) read git-lfs pointer files whose first line `version https://...` only parses because of it"),

 ("assignment-negvars","P05","assignment.Assignment.NegVars returns the IDs of the negative literals typed as Variable instead of the variables its documentation promises (assignment {~a}: NegVars()[0] != fac.Var(\"a\"))","assignment/assignment.go NegVars","TestAddLiteral asserts the present return value"),
 ("aig-equivalence","P06","normalform.AIG copies the operands of an equivalence untransformed into the second conjunct, so the result is no and-inverter graph when an operand contains a disjunction, implication or equivalence (AIG(a <=> b | c) contains b | c)","normalform/aig.go case SortEquiv","TestAIGNot asserts the present result for ~(~(a | b) <=> ~(x | y))"),
]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"known_extra.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)),"known_extra.py")) else None
out=[]
for i,p,what,where,why in OPEN:
    out.append({"id":i,"property":p,"status":"open","what":what,"where":where,"why_open":why})
for i,p,subj,what in FIXED:
    assert subj in H, subj
    out.append({"id":i,"property":p,"status":"fixed","commit":H[subj],"record":f"fixed: property={p} {H[subj]} {what}"})
json.dump({"findings":out},open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.json"),"w"),indent=1)
print(len(out))
