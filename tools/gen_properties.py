#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is its output)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Formula construction preserves meaning and basic normal form",
  "For every sequence of constructor calls (constants, literals, not, implication, equivalence, and, or, clause, minterm, cardinality and pseudo-Boolean constraints) the formula returned by a factory has, under every assignment, exactly the truth value given by the Boolean definition of the operation, in both the constraint-trivialising default mode and the variable-conserving mode. Returned conjunctions and disjunctions have at least two operands, are flattened and duplicate free, contain no constants and (outside conserving mode) no complementary pair; double negations and negated constants or literals never survive; names, phases, operators, operands, coefficients, comparators and bounds read back as constructed.",
  ["inputs", "histories", "configurations"], "all formulas over any variables, any construction history on one factory, both simplification modes",
  "Tests construct a few dozen hand-written formulas on fresh factories; simplification and flattening rules must be sound for every operand combination and cache content.",
  ["formula/factory.go", "formula/formula.go"],
  [("n-ary condensing, flattening, complement detection", "formula/factory.go"), ("constraint trivialisation", "formula/factory.go")],
  [("formula caches", "the hash-consing tables of one factory", "formula/factory.go")])
p("P02", "Hash-consing: equal constructions are one immutable formula",
  "On one factory, constructing the same formula again (same operator and operands in the same order, literals by name and phase, constraints by comparator, bound, literals and coefficients) always yields the identical formula handle, and structurally different formulas never share a handle. Handles stay valid and unchanged for the lifetime of the factory: later factory calls, later library calls on it and later changes by the caller of slices it passed in never alter what an existing formula denotes or prints.",
  ["histories", "inputs"], "all histories of factory and library calls on one factory",
  "Tests compare a handful of handles on small factories; collisions in operand hashing, ID allocation and aliasing need large mixed histories to appear.",
  ["formula/factory.go", "formula/formula.go"],
  [("operand-sequence hash maps with equality buckets", "formula/factory.go"), ("ID allocation with even/odd polarity", "formula/factory.go")])
p("P03", "Derived functions and caches are history independent",
  "Variables, literals, sub-formulas, depth, atom and node counts, variable and literal profiles, form predicates and all cached transformations of a formula depend only on the formula itself: a factory that has already processed an arbitrary other workload (including cancelled computations, and configurations passed to other calls) gives the same answers as a fresh factory. Variable sets, profiles, depth and counts equal those computed by walking the formula structure.",
  ["inputs", "histories"], "all formulas, all preceding histories of library calls on the same factory",
  "Every unit test starts with a fresh factory; stale or wrongly keyed cache entries can only be seen after unrelated earlier work.",
  ["formula/function.go", "formula/formula_profile.go", "formula/formula_depth.go", "formula/number_of_atoms.go", "formula/number_of_nodes.go", "formula/subnode.go", "formula/predicate.go", "formula/transformation.go"],
  [("function, predicate and transformation caches", "formula/factory.go")])
p("P04", "Parsing inverts printing; malformed text yields an error",
  "For every formula, parsing its printed text on any factory gives the same formula (identical handle on the same factory, same structure and same text on another), and parsing text with explicit operator precedence gives the formula the grammar prescribes (not > and > or > implication > equivalence, implication right associative). For every byte string that is not in the language, parsing returns an error rather than panicking, and never silently accepts a proper prefix.",
  ["inputs"], "all formulas, all input strings",
  "Tests parse a fixed list of strings; printer bracketing and error handling must hold for arbitrary nesting and arbitrary bytes.",
  ["parser/propositional_parser.go", "parser/logicngpropositional_parser.go", "formula/printer.go"],
  [("grammar with precedence", "parser"), ("bracketing rules in the printer", "formula/printer.go")])
p("P05", "Evaluation and restriction agree with Boolean semantics",
  "Evaluating a formula under an assignment gives its truth value with unassigned variables taken as false; restricting it by a partial assignment gives a formula without the assigned variables that has the same value under every completion. Evaluation to constants reports true or false only if every completion gives that value, and always does so for complete assignments; constraint evaluation compares the exact weighted sum with the bound.",
  ["inputs"], "all formulas, all (partial) assignments",
  "Tests evaluate about a hundred fixed pairs; short-circuit and partial-assignment rules must be right for every operator nesting.",
  ["assignment/evaluate.go", "assignment/restrict.go", "assignment/evaluate_to_constant.go", "assignment/assignment.go"],
  [("recursive evaluation", "assignment/evaluate.go"), ("recursive restriction", "assignment/restrict.go"), ("partial evaluation", "assignment/evaluate_to_constant.go")])
p("P06", "Normal forms are equivalent and really in the normal form",
  "Negation normal form, factorised CNF and DNF, and-inverter graph, BDD-based CNF and DNF, and canonical CNF and DNF of every formula are logically equivalent to it (for formulas with encoded constraints: have the same models over the original variables) and satisfy the syntactic definition of their form. The form predicates answer according to that definition for every formula; canonical forms contain exactly one full clause or term per falsifying or satisfying assignment.",
  ["inputs", "configurations"], "all formulas; all factorisation bounds",
  "Tests use small fixed formulas; polarity handling of nested equivalences and constraints under negation needs arbitrary nesting.",
  ["normalform/nnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/aig.go", "normalform/term.go", "bdd/normalform.go", "model/enum/normalform.go"],
  [("polarity-driven NNF", "normalform/nnf.go"), ("distribution", "normalform/cnf.go"), ("AIG construction", "normalform/aig.go")])
p("P07", "Tseitin and Plaisted-Greenbaum CNF keep models over original variables",
  "For every formula, boundary and CNF configuration, the auxiliary-variable CNF is in CNF and its models projected to the original variables are exactly the models of the formula (for the full-equivalence encoding each model extends uniquely). This also holds when several formulas are transformed one after another with one shared auxiliary state and their results are conjoined, and when the bounded factorisation falls back to an auxiliary encoding.",
  ["inputs", "configurations", "histories"], "all formulas, all boundaries and configurations, all sequences sharing an auxiliary state",
  "Tests count models of fixed formulas with one or two boundaries and never reuse an auxiliary state after a factorised step.",
  ["normalform/cnf.go", "normalform/handler.go"],
  [("polarity-aware definition clauses", "normalform/cnf.go"), ("auxiliary state map", "normalform/cnf.go")])
p("P08", "Cardinality encodings are exact for every encoder",
  "For every cardinality constraint (at most, at least, exactly, less, greater with any bound, including at-most-one and exactly-one) and every encoder and group-size configuration, the produced clauses, projected to the constraint's variables, are satisfied by exactly the assignments that satisfy the constraint. Auxiliary variables are fresh and never shared between encodings, and the same holds when the clauses are emitted into a SAT solver instead of a formula list.",
  ["inputs", "configurations"], "all variable counts, bounds, comparators, encoders and configurations",
  "Tests check model counts for selected sizes and default group sizes; off-by-one errors hide in particular size, bound and group combinations.",
  ["encoding/amo.go", "encoding/cc_encoding.go", "encoding/cc_totalizer.go", "encoding/cc_modular_totalizer.go", "encoding/cc_cardinality_network.go", "encoding/config.go", "encoding/result.go"],
  [("AMO/AMK/ALK/EXK encoders", "encoding"), ("encoder selection by configuration", "encoding/cc_encoding.go")])
p("P09", "Incremental cardinality bounds tighten to exactly the new bound",
  "After a cardinality constraint is encoded incrementally, every later tightening of its upper or lower bound (as clauses or directly on the solver, in any legal sequence) leaves exactly the assignments admitted by all bounds given so far, for every encoder that offers incremental data. The reported current bound is the last one set.",
  ["inputs", "configurations", "histories"], "all constraints, encoders and tightening sequences",
  "Tests tighten one bound step by step in a single pattern; skipping bounds and border bounds are not explored.",
  ["encoding/cc_incremental_data.go", "encoding/cc_encoding.go"],
  [("output vectors of totalizer-like encodings", "encoding/cc_incremental_data.go")])
p("P10", "Pseudo-Boolean constraints: normalisation and encodings are exact",
  "For every pseudo-Boolean constraint with arbitrary integer coefficients (negative, zero, repeated variables, both polarities), comparator and bound, normalising or negating it gives an equivalent, respectively complementary, formula, and every encoder and configuration yields clauses whose models projected to the constraint's variables are exactly its solutions. Encoders never return clauses that silently accept or reject because of coefficient size (coefficients and bounds up to 40 bits).",
  ["inputs", "configurations"], "all literals, coefficients, bounds, comparators and encoders",
  "Tests use a few coefficient vectors per encoder; carry and sorting logic depend on coefficient patterns.",
  ["encoding/normalize.go", "encoding/pbc_encoding.go", "encoding/pbc_swc.go", "encoding/pbc_binary_merge.go", "encoding/pbc_adder.go", "formula/factory.go"],
  [("normalisation", "encoding/normalize.go"), ("SWC, binary merge and adder networks", "encoding")])
p("P11", "SAT solver: answers are right, models satisfy all constraints",
  "For every set of formulas and every solver configuration (CNF method, clause minimisation, at-most clauses, proof tracing, initial phase, restart and deletion parameters) the solver answers satisfiable exactly if a satisfying assignment exists, and terminates. A returned model is defined on exactly the requested known variables and extends to a satisfying assignment of everything added, and literals reported as implied at level zero are implied; satisfiability, tautology, contradiction, implication and equivalence predicates agree with truth tables.",
  ["inputs", "configurations"], "all formula sets and all configurations",
  "Large-instance test files are absent (LFS pointers); remaining tests run small fixed problems that barely exercise clause deletion, restarts and minimisation.",
  ["sat/core.go", "sat/solver.go", "sat/pg_on_solver.go", "sat/predicate.go", "sat/call.go", "sat/heap.go"],
  [("CDCL search with learning and deletion", "sat/core.go"), ("on-solver Plaisted-Greenbaum", "sat/pg_on_solver.go"), ("at-most clauses", "sat/core.go")],
  [("trail, watches, level, ok", "solver state", "sat/core.go")])
p("P12", "SAT solver histories: answers depend only on the current constraints",
  "Over every sequence of additions (formulas, propositions, constraints, at-most clauses, relaxable formulas, incremental bounds), satisfiability calls with assumptions or temporary additional formulas, enumerations, backbones, optimisations, state saves and state loads, each answer is the one a fresh solver would give for the conjunction of the formulas currently on the solver. Temporary assumptions and formulas leave no trace in the constraints; loading a state restores exactly the constraints of that state and invalidates later states; known variables and formulas read back from the solver are consistent with what was added.",
  ["histories", "inputs", "configurations"], "all operation histories, all solver configurations",
  "Tests exercise short scripted sequences; residue of learnt clauses, trail and propagated units after undo needs long mixed histories.",
  ["sat/solver.go", "sat/core.go", "sat/core_state.go", "sat/call.go", "sat/formulas_on_solver.go", "sat/var_occs.go"],
  [("solver states with validity stack", "sat/core_state.go"), ("call-local state save/load", "sat/call.go")],
  [("clauses, at-most clauses, unit clauses, ok flag", "restored on load", "sat/core_state.go")])
p("P13", "Unsatisfiable cores are unsatisfiable subsets of what was added",
  "Whenever a call with core extraction reports unsatisfiable, with or without assumptions and across incremental and decremental histories, the returned core consists only of propositions that were added and are still on the solver or were given for this call, and their conjunction is unsatisfiable. No core is returned for satisfiable calls, and asking for a core never changes the answer.",
  ["inputs", "histories", "configurations"], "all unsatisfiable histories with proof tracing",
  "Tests check fixed problems with known cores; proof completeness must hold for every conflict analysis, minimisation and deletion path.",
  ["sat/unsat_core.go", "sat/proofs.go", "sat/core.go"],
  [("RUP proof recording", "sat/core.go"), ("trimming checker", "sat/proofs.go")])
p("P14", "Backbones contain exactly the implied literals",
  "For every formula set and every requested variable set the computed backbone reports satisfiability correctly and lists as positive (negative) exactly those requested variables that are true (false) in every model, the remaining ones as optional, restricted to the requested polarity kind. Computing it repeatedly, after undo, or on a solver in use leaves later answers unchanged.",
  ["inputs", "histories", "configurations"], "all formula sets, variable subsets, kinds and histories",
  "Tests compare with a few precomputed backbones.",
  ["sat/backbone.go", "simplification/backbone.go"],
  [("candidate stack with UP and model filtering", "sat/backbone.go")])
p("P15", "Optimisation on the solver returns a true optimum",
  "Maximising or minimising the number of satisfied literals (any literals, also unknown variables, repeated or complementary ones) on a satisfiable solver returns a model of everything on the solver whose value is the best any model achieves (variables the solver does not know may be left out of the returned model); on an unsatisfiable solver it reports so. The solver's constraints are the same afterwards.",
  ["inputs", "histories"], "all formula sets and literal lists",
  "Tests compare a few fixed instances.",
  ["sat/optimizer_function.go"], [("bound tightening with incremental cardinality", "sat/optimizer_function.go")])
p("P16", "Cancelling any computation is prompt, reported and harmless",
  "For every event at which a handler asks to stop a computation (SAT solving, core and backbone extraction, optimisation, enumeration, counting, projection normal forms, BDD and DNNF compilation, prime implicants, minimal unsatisfiable sets, simplifiers, factorisation), the computation returns promptly (at most one further event) with a result marked as cancelled with that event as cause, or a complete correct result, but never a wrong or incomplete answer marked successful, a panic or a hang; partial results of a cancelled enumeration or optimisation are sound. Afterwards the same solver, factory and kernel give correct answers to the same and to other queries.",
  ["fault_sequences", "inputs"], "all cancellation points of all cancellable computations on all inputs",
  "Tests cancel at one or two fixed points; each event is a separate fault point with its own clean-up path.",
  ["handler/handler.go", "sat/core.go", "sat/call.go", "sat/backbone.go", "sat/optimizer_function.go", "model/iter/iteration.go", "bdd/handler.go", "dnnf/compiler.go", "explanation/mus/mus.go", "explanation/smus/smus.go", "primeimplicant/computation.go", "simplification/advanced.go", "normalform/handler.go"],
  [("ShouldResume checks with early return and state restore", "throughout")])
p("P17", "Model enumeration delivers every projected model exactly once",
  "For every solver content, projection variable set, additional variable set and enumeration strategy (none, default, all split-variable providers and limits), enumeration delivers each assignment of the projection variables that extends to a model exactly once and nothing else, with every additional variable given a consistent value; enumerating via formulas, solvers and decision diagrams agrees. Enumeration leaves the solver's constraints unchanged.",
  ["inputs", "configurations", "histories"], "all formulas, projections and strategies",
  "Tests compare counts on fixed formulas with a few configurations.",
  ["model/iter/iteration.go", "model/iter/collectors.go", "model/iter/strategy.go", "model/iter/split.go", "model/enum/enumeration.go", "model/enum/enumeration_bdd.go", "bdd/operation.go"],
  [("blocking clauses with recursion splits", "model/iter/iteration.go"), ("commit/rollback collectors", "model/iter/collectors.go")])
p("P18", "Model counting is exact on every path",
  "Counting models of formulas over any variable superset (by solver iteration, by compilation, by decision diagrams, with projection) gives exactly the number of satisfying assignments over those variables, also for formulas that need auxiliary encodings or split into independent components. A variable set that does not cover the formula is rejected.",
  ["inputs"], "all formula lists and variable sets",
  "Tests use fixed formulas of known count.",
  ["model/count/dnnf_counting.go", "model/count/sat_counting.go", "dnnf/dnnf.go", "bdd/operation.go"],
  [("component decomposition", "model/count/dnnf_counting.go"), ("weighted DNNF count", "dnnf/dnnf.go")])
p("P19", "BDD compilation and operations are exact and canonical",
  "For every formula (at most cardinality-free or with constraints whose encoding needs no auxiliary variables) and variable order the compiled decision diagram represents exactly that formula, and every operation on diagrams (negation, conjunction, disjunction, implication, equivalence, quantification, restriction, model, full model, support, counts, paths, conversions) gives the diagram or value its Boolean definition prescribes, however often and in whatever order operations are repeated on one kernel. Two diagrams of a kernel are the same node exactly if they are equivalent, and every diagram is reduced and follows the current order.",
  ["inputs", "histories", "configurations"], "all formulas, orders and operation histories on one kernel",
  "Tests check each operation once on fresh kernels; cached results that are mutated or evicted need repeated mixed use.",
  ["bdd/bdd.go", "bdd/construction.go", "bdd/operation.go", "bdd/kernel.go", "bdd/cache.go", "bdd/normalform.go", "bdd/function.go"],
  [("unique table", "bdd/kernel.go"), ("operation caches", "bdd/cache.go")])
p("P20", "BDD reordering, growth and collection never change meaning",
  "Reordering with any method and block structure, swapping variables, table growth and garbage collection at any point of a history of diagram operations keep the meaning, node identity of equivalent live diagrams, counts and later operation results of all diagrams the user holds. After a reorder the reported order is a permutation of the variables and the diagrams follow it.",
  ["histories", "inputs", "configurations"], "all interleavings of operations, reorders and collections",
  "Tests reorder a few fixed BDDs; stale caches and level maps need operations after reordering and small tables that force growth and collection.",
  ["bdd/reordering.go", "bdd/kernel.go", "bdd/tree.go", "bdd/construction.go"],
  [("swap, sift and window reorderings", "bdd/reordering.go"), ("mark and sweep collection", "bdd/kernel.go")],
  [("var2level/level2var, reference counts, unique table", "kernel state", "bdd/kernel.go")])
p("P21", "DNNF compilation is equivalent, decomposable and deterministic",
  "For every formula the compiled normal form is logically equivalent over the formula's variables, contains only literals, conjunctions and disjunctions, its conjunctions have operands with pairwise disjoint variables and its disjunctions have pairwise contradictory operands, and its model count over the formula's variables is exact (formulas whose constraints need auxiliary variables: after projection to the original variables).",
  ["inputs"], "all formulas",
  "Tests check counts of fixed formulas only.",
  ["dnnf/compiler.go", "dnnf/dtree.go", "dnnf/dtree_generator.go", "dnnf/bitset.go", "dnnf/dnnf.go", "sat/dnnf_solver.go"],
  [("decomposition tree guided compilation with component caching", "dnnf/compiler.go")])
p("P22", "MaxSAT algorithms return the optimum",
  "For every set of hard and weighted soft formulas and every algorithm and configuration that supports them (WMSU3 weighted instances, LinearUS and MSU3 unweighted ones, the others both), the solver reports unsatisfiable exactly if the hard formulas are, and otherwise an optimum equal to the least total weight of violated soft formulas over all models of the hard ones, with a model that satisfies the hard formulas and attains it. All algorithms agree.",
  ["inputs", "configurations"], "all weighted instances, algorithms and configurations",
  "The MaxSAT tests depend on absent data files; core-guided algorithms need many random instances with varied weights.",
  ["maxsat/alg_incwbo.go", "maxsat/alg_linear_su.go", "maxsat/alg_linear_us.go", "maxsat/alg_msu3.go", "maxsat/alg_oll.go", "maxsat/alg_wbo.go", "maxsat/alg_wmsu3.go", "maxsat/algorithm.go", "maxsat/solver.go", "maxsat/enc_totalizer.go", "maxsat/enc_swc.go", "maxsat/enc_ladder.go"],
  [("core-guided and linear search", "maxsat"), ("weight handling and encoders", "maxsat")])
p("P23", "MaxSAT histories: adding, undoing and cancelling keep optima right",
  "Over every sequence of adding hard and soft formulas, saving and loading states, solving and cancelling a solve at any point on one MaxSAT solver, each completed solve returns the optimum of the formulas currently on the solver. Loading an invalidated state is refused with an error, and a cancelled solve is reported as such with bounds that enclose the optimum.",
  ["histories", "fault_sequences", "inputs"], "all operation histories and cancellation points",
  "Tests script a few incremental sequences; stale results, weights and relaxations after undo or cancel need generated histories.",
  ["maxsat/solver.go", "maxsat/algorithm.go", "maxsat/event.go"],
  [("state save/load", "maxsat/algorithm.go"), ("result caching", "maxsat/solver.go")])
p("P24", "Prime implicants and implicates are prime, covering and complete",
  "For every formula the computed prime implicants imply it and lose that property when any literal is dropped; the computed covers by implicants or implicates are jointly equivalent to the formula, and each computed implicate is implied and prime, for both coverage modes. Minimum-size prime implicants of a CNF without tautological clauses have the smallest number of literals of any implicant.",
  ["inputs", "configurations"], "all formulas, both coverage types",
  "Tests use few fixed formulas.",
  ["primeimplicant/computation.go", "primeimplicant/minimum_implicant.go"],
  [("dual-rail optimisation", "primeimplicant/computation.go"), ("naive reduction", "primeimplicant/computation.go")])
p("P25", "Minimal unsatisfiable sets are minimal, smallest ones smallest",
  "For every unsatisfiable list of propositions each algorithm returns a subset that is unsatisfiable and becomes satisfiable when any one of its members is removed; the smallest-set computation returns one of least possible cardinality relative to the given additional constraints. Satisfiable input is reported as such.",
  ["inputs", "configurations"], "all proposition lists and both algorithms",
  "Tests use pigeon holes and a few files (absent).",
  ["explanation/mus/mus.go", "explanation/smus/smus.go", "explanation/unsat_core.go"],
  [("deletion and insertion algorithms", "explanation/mus/mus.go"), ("hitting-set dual", "explanation/smus/smus.go")])
p("P26", "Simplifiers preserve meaning and keep their promised effect",
  "Every simplifier (advanced with any option set, backbone, unit propagation, negation minimisation, factoring out, distribution, CNF and DNF subsumption, two-level minimisation) returns a formula equivalent to its input without new variables (unit propagation works on the CNF, so on other formulas it may leave CNF auxiliaries and is equivalent after projection). Negation minimisation never prints longer than its input; factoring out and the advanced simplifier (with rating and without backbone restriction) never return a formula rated larger than the input. Subsumption returns a subset of the clauses or terms in which none subsumes another and refuses other formulas. Backbone propagation leaves every backbone literal exactly once, as a conjunct, and unit propagation of a CNF is the exact propagation fixpoint. Two-level minimisation returns a disjunction of the fewest prime implicants.",
  ["inputs", "configurations"], "all formulas and configurations",
  "Tests use fixed formulas with expected strings.",
  ["simplification/advanced.go", "simplification/backbone.go", "simplification/distribution.go", "simplification/factor_out.go", "simplification/negation_simplifier.go", "simplification/subsumption.go", "simplification/unit_propagation.go", "simplification/rating_function.go"],
  [("rating-function guarded rewriting", "simplification"), ("unlimited-branching subsumption tree", "simplification/subsumption.go")])
p("P27", "Substitution, quantifier elimination, renaming keep their meaning",
  "Substituting formulas or literals is simultaneous and has the meaning of composing the functions; existential and universal elimination equal the disjunction, respectively conjunction, of both restrictions per variable and remove the variables; renaming to fresh names is a bijection that is consistent over many formulas; expanding at-most-one and exactly-one constraints is equivalent and constraint free.",
  ["inputs"], "all formulas, substitutions and variable sets",
  "Tests use fixed formulas and single substitutions.",
  ["transformation/substitution.go", "transformation/literal_substitution.go", "transformation/qe.go", "transformation/anonymizer.go", "transformation/pure_expansion.go"],
  [("recursive rebuild", "transformation")])
p("P28", "Reading back written files gives the same problem",
  "Writing a CNF in DIMACS form and reading it back with its variable mapping gives the same clause set, and the header counts match; reading formula files gives the conjunction or list of the lines' formulas, and writing then reading returns the same formulas. Reading DIMACS or weighted CNF text in any legal layout yields exactly the listed clauses and weights, and malformed or missing files yield errors rather than panics.",
  ["inputs"], "all formulas and all legal and illegal file texts",
  "Test data files are absent and the remaining tests compare fixed outputs.",
  ["io/dimacs_reader.go", "io/dimacs_writer.go", "io/formula_reader.go", "io/formula_writer.go", "maxsat/reader.go"],
  [("writers and readers", "io")])
p("P29", "Graphs, components, orderings and set covers are what they claim",
  "Constraint graphs have an edge exactly between variables sharing a formula, connected components partition the nodes by reachability and splitting formulas by component partitions them; hypergraphs have exactly one hyperedge per clause; every variable-ordering heuristic returns a permutation of the formula's variables, consistent with its documented criterion and the same for every call on the same formula of one factory. Minimum set covers cover everything coverable with the fewest sets.",
  ["inputs"], "all formulas, graphs and set systems",
  "Tests use fixed graphs and formulas.",
  ["graph/constraint_graph.go", "graph/connected_components.go", "graph/hypergraph.go", "graph/hypergraph_generator.go", "graph/formula_graph.go", "bdd/ordering.go", "np/set_cover.go"],
  [("graph construction and depth-first search", "graph"), ("ordering heuristics", "bdd/ordering.go"), ("MaxSAT-based cover", "np/set_cover.go")])
p("P30", "Random formula generation honours its contract",
  "For every configuration that leaves its generators something to generate, a generator produces formulas over the configured variables only, of at most the requested depth, with operand numbers, coefficients and comparators inside the configured bounds; types of weight zero never occur and the others occur in proportion to their weights; each special generator returns its kind of formula. Two generators with equal configuration and seed on fresh factories produce the same sequence of formulas.",
  ["configurations", "inputs"], "all configurations and seeds",
  "Tests check a few seeds in one process; non-determinism and depth violations are rare events.",
  ["randomizer/formula_randomizer.go"],
  [("weighted choice with seeded source", "randomizer/formula_randomizer.go")])
p("P31", "Independent factories are safe and deterministic under concurrency",
  "Goroutines that each use their own factory and solvers never race on hidden shared state, under every schedule, and compute exactly the results they compute when run alone (random reordering of BDDs aside). Results of one goroutine are never influenced by configuration or work in another.",
  ["schedules", "programs"], "all schedules of goroutines using disjoint factories",
  "The test suite is sequential and is not run with the race detector.",
  ["formula/factory.go", "encoding/config.go", "sat/config.go", "model/iter/config.go", "handler/handler.go", "parser/propositional_parser.go"],
  [("no package-level mutable state", "all packages")])
p("P32", "Graphical exports describe exactly the exported structure",
  "The graphical representation generated from a formula (tree or shared form), a BDD, a constraint graph or hypergraph has exactly the nodes and edges of that structure with labels that identify them, and the DOT and Mermaid text contains each of these nodes and edges exactly once (labels without backslashes and line breaks). Every write error is reported.",
  ["inputs", "configurations"], "all formulas, diagrams and graphs, both output formats",
  "Tests compare with a few stored files.",
  ["graphical/representation.go", "graphical/generator.go", "graphical/dot_writer.go", "graphical/mermaid_writer.go", "formula/graphical.go", "bdd/graphical.go", "graph/graphical.go"],
  [("generators and writers", "graphical")])

p("P33", "Handlers see a faithful event trace; bounded handlers stop at their bound",
  "A handler given to a computation receives that computation's start event before any other event; satisfiability calls inside are bracketed (conflicts only between the start and the end of a call, every call that found conflicts and was not cancelled has its end). In model enumerations and counts the numbers of models told by found events, committed or dropped by commit and rollback events, add up exactly to the delivered result, complete or cancelled, with any number of variables the solver does not know. Every reported better bound of an optimisation comes with a model of the solver's content whose value is strictly better than the one before, and the last one is the result's value. MaxSAT bounds are monotone and enclose the optimum, and its end event comes last. The library's bounded handlers (models, BDD nodes, distributions, clauses) stop a computation exactly when their bound is reached, each use anew, also after a cancelled one. Watching a computation with a handler that never cancels does not change its result.",
  ["inputs", "histories", "configurations"], "all computations that take a handler, complete and cancelled at any event, and all bounds",
  "Tests use a handler with one bound on one formula and look at the final state, never at the trace of events.",
  ["event/event.go", "handler/handler.go", "sat/core.go", "sat/optimizer_function.go", "model/iter/iteration.go", "model/iter/handler.go", "model/enum/enumeration.go", "model/enum/enumeration_bdd.go", "model/count/sat_counting.go", "bdd/handler.go", "bdd/kernel.go", "normalform/handler.go", "normalform/cnf.go", "normalform/dnf.go", "maxsat/algorithm.go", "maxsat/event.go", "dnnf/compiler.go"],
  [("events", "event/event.go, ShouldResume calls of all computations"), ("bounded handlers", "model/iter/handler.go, bdd/handler.go, normalform/handler.go")])

p("P34", "Calls change neither their arguments nor results given out earlier",
  "No call changes the slices (nor what lies behind their end), maps, sets, assignments, propositions or configurations it is given, and what their owner does with them after the call has no effect on its result, on the factory, or on the solver, kernel or graph that was called.  A result delivered once never changes through later calls on any object.  Results belong to the caller: changing a returned list, model, map or big number does not change the answers of later calls.  Call parameters of a solver can be used again with the same outcome.  Views of the library's own data (operands of a formula, contents of sets, nodes of graphs), models built from a given slice and configurations in use are excepted.",
  ["histories", "inputs", "aliasing"], "all calls that take or return slices, maps, sets, models or big numbers, in any history",
  "Tests build each argument for one call and drop it together with the result, so sharing of memory never shows.",
  ["formula/factory.go", "formula/set.go", "formula/subnode.go", "formula/formula.go", "sat/solver.go", "sat/call.go", "sat/optimizer_function.go", "sat/backbone.go", "model/model.go", "model/enum/enumeration.go", "model/count/sat_counting.go", "model/count/dnnf_counting.go", "dnnf/dnnf.go", "bdd/bdd.go", "bdd/function.go", "bdd/ordering.go", "maxsat/solver.go", "explanation/mus/mus.go", "explanation/smus/smus.go", "transformation/literal_substitution.go", "assignment/assignment.go"],
  [("factory", "formula/factory.go, caches of formula/*"), ("solvers", "sat/call.go Call, sat/solver.go Add; maxsat/solver.go Solve"), ("counting", "dnnf/dnnf.go count, bdd/bdd.go ModelCount")])

p("P35", "The same history of calls always gives the same results",
  "The same sequence of calls on new factories, solvers and kernels, with the same configurations and seeds, gives exactly the same results in every run: texts and identities of formulas, names of auxiliary variables, clauses of encodings, models with the order of their literals and the order of enumerated models, backbones, unsat cores and explanations, prime covers, minimum implicants and set covers, simplified formulas, optima, diagrams and their orders, DNNFs, graphs, random formulas of a seed, and the sequence of events shown to handlers, including where a cancelled computation stops. Results depend neither on the iteration order of maps, nor on what the process did with other factories before. Random reordering of BDD variables is excepted.",
  ["histories", "inputs", "schedules"], "all computations of the library, in any history, repeated in one process after any other work",
  "Tests run each computation once and compare properties of its result or one text that is the only possible one; whether a second run gives the same is settled only by repeating runs, and map iteration changes rarely with few elements.",
  ["primeimplicant/computation.go", "primeimplicant/minimum_implicant.go", "np/set_cover.go", "sat/core.go", "sat/var_occs.go", "sat/solver.go", "sat/unsat_core.go", "model/iter/split.go", "model/iter/iteration.go", "simplification/subsumption.go", "simplification/distribution.go", "simplification/advanced.go", "encoding/normalize.go", "formula/set.go", "formula/factory.go", "graph/connected_components.go", "graph/hypergraph_generator.go", "bdd/ordering.go", "dnnf/compiler.go", "maxsat/algorithm.go", "explanation/mus/mus.go", "explanation/smus/smus.go", "randomizer/formula_randomizer.go"],
  [("computations over maps", "slices.Sort in primeimplicant/computation.go, sort by handle in model/iter/split.go, linked maps and sets of gods"), ("shared state", "package level variables")])

p("P36", "Unsuitable input is rejected as documented and changes nothing",
  "An operation accepts every input its documentation allows and refuses every input it excludes, in any state of the objects involved: with an error that wraps the documented class of package errorx (bad input, bad formula sort, illegal state), or, where a panic is documented, with a panic whose value is such an error and never a runtime error. This holds for literal and operator sorts, contradictory assignments, encodings of what is no constraint, bounds of incremental constraints that do not tighten, hypergraphs and subsumption of what is not in normal form, component lists that do not cover a formula, BDDs of different kernels, unknown or too many BDD variables, models of contradictions, broken DIMACS and formula text, weights below one, solver states that are not valid any more, problems a MaxSAT algorithm is not for, core requests without proof tracing, substitutions into constraints, expansions, counting variables, satisfiable sets for unsatisfiability explanations, unsatisfiable formulas for implicants, rates and colours out of range and configurations. A refused call has no result and leaves factory, assignment, solver, kernel and encoding as they were: everything asked later is answered as if it had not been made.",
  ["inputs", "histories"], "all inputs of the listed operations, suitable or not, at any point of a history of calls",
  "Tests try single unsuitable values on fresh objects; that the border between accepted and refused inputs runs exactly where documented for all inputs, and that nothing is left behind by a refused call within a history, they cannot settle.",
  ["errorx/error.go", "formula/formula.go", "formula/factory.go", "assignment/assignment.go", "model/model.go", "encoding/cc_encoding.go", "encoding/pbc_encoding.go", "encoding/cc_incremental_data.go", "graph/hypergraph_generator.go", "graph/connected_components.go", "bdd/bdd.go", "bdd/kernel.go", "bdd/reordering.go", "io/dimacs_reader.go", "io/dimacs_writer.go", "maxsat/reader.go", "maxsat/solver.go", "maxsat/algorithm.go", "maxsat/alg_msu3.go", "maxsat/alg_linear_us.go", "maxsat/alg_wmsu3.go", "sat/call.go", "sat/core.go", "transformation/substitution.go", "transformation/pure_expansion.go", "simplification/subsumption.go", "model/count/dnnf_counting.go", "model/iter/split.go", "explanation/mus/mus.go", "primeimplicant/minimum_implicant.go", "graphical/styling.go", "parser/propositional_parser.go"],
  [("error classes", "errorx/error.go"), ("checks of input", "errorx.BadInput, BadFormulaSort and IllegalState at the start of the operations")])

p("P37", "Stored configurations govern calls without one and never change meanings",
  "A configuration stored in the factory governs every call that brings none - CNF, SAT solvers, MaxSAT solvers, cardinality, pseudo-Boolean and incremental encodings, advanced simplifier, randomizer - exactly as if it had been given, also where an operation passes it on (constraints on solvers and in normal forms, formulas on SAT and MaxSAT solvers); a given configuration wins over a stored one; a later stored one replaces an earlier one of its sort only; without either the documented defaults apply, which are new values at each request. Every setting has its effect and only that: calls neither change nor replace configurations. An unsuitable configuration is refused and changes nothing. Whatever configurations are stored, every other guarantee holds: results may differ in form, never in meaning.",
  ["inputs", "histories"], "all configurations in their documented ranges, stored, given, replaced or absent, for all operations and inputs",
  "Tests fix single configurations and judge single results; that a stored setting is read everywhere and that no combination of settings and inputs breaks equivalence, models, counts or optima elsewhere they cannot settle.",
  ["configuration/config.go", "formula/factory.go", "normalform/cnf.go", "normalform/nnf.go", "sat/config.go", "sat/solver.go", "maxsat/config.go", "maxsat/solver.go", "encoding/config.go", "encoding/cc_encoding.go", "encoding/pbc_encoding.go", "encoding/pbc_binary_merge.go", "simplification/advanced.go", "randomizer/formula_randomizer.go", "model/iter/config.go", "dnnf/compiler.go", "primeimplicant/computation.go"],
  [("lookup", "determineConfig and ConfigurationFor calls"), ("store", "formula/factory.go PutConfiguration, ConfigurationFor")])

p("P38", "Sets, assignments, models and propositions are the values they stand for",
  "Along every history of calls, sets of formulas, variables and literals (mutable and immutable) contain exactly what was put in and not removed: size, membership, containment and the sorted content agree, adding or removing a set from itself included; copies, sets of the variables of formulas and contents taken earlier are independent of later changes, as are the lists a set was made of. Assignments hold exactly the literals they accepted, refuse complementary ones without a change, and evaluate and restrict formulas by what they hold at that time; models are their list of literals, turn into assignments unless contradictory, and are independent of the assignment they came from. Conversions between formulas, literals and variables are inverse to each other, negation is an involution that flips the value, propositions carry and print their formula and description, comparisons are total orders, comparators and three-valued Booleans have their arithmetic and logical meaning. An auxiliary variable is a new one, with a new name, whatever was created before.",
  ["inputs", "histories"], "all histories of calls on pools of such values, over any formulas",
  "Tests make one value of each kind and look at it once; that cached contents, shared storage and refused changes never show in any later observation is a statement about all histories.",
  ["formula/set.go", "formula/formula.go", "formula/proposition.go", "formula/tristate.go", "formula/factory.go", "assignment/assignment.go", "assignment/evaluate.go", "assignment/restrict.go", "model/model.go"],
  [("cached content", "formula/set.go fset.content"), ("values", "assignment/assignment.go, model/model.go")])
p("P39", "Engines answer exactly at sizes beyond exhaustive checking",
  "For problems over dozens of variables, the engines agree with an exact calculation: SAT calls under assumptions and additional constraints along additions and loaded states are satisfiable exactly if there are models, cores have none, backbones list exactly the forced literals; model counts of the counters, decision diagrams (also reordered, restricted and quantified) and DNNFs are the number of models, beyond machine words of 32 bits too; enumerations, projected or complete, whatever the splits, are the set of models; optimisation on a solver and the MaxSAT algorithms reach exactly the optimum; one cardinality or pseudo-Boolean constraint over many variables, in any encoding and tightened incrementally, allows exactly the attainable sums; minimal cores are unsatisfiable and minimal, smallest ones the smallest; normal forms and simplifications keep models and non-models.",
  ["inputs", "histories"], "all problems of any size; explored: windows of 2-5 positions on hidden lines of 6-60 variables",
  "Tests at this size compare with stored results for single files. That long searches (restarts, learnt clauses, reductions, splits, stratification, variable tables and caches that grow) never change an answer is a statement about all inputs, and small instances never reach those parts.",
  ["sat/core.go", "sat/backbone.go", "sat/optimizer_function.go", "bdd/kernel.go", "bdd/operation.go", "bdd/reordering.go", "dnnf/compiler.go", "model/iter/iteration.go", "model/count/dnnf_counting.go", "maxsat/algorithm.go", "encoding/cc_encoding.go", "encoding/pbc_encoding.go", "explanation/mus/mus.go", "explanation/smus/smus.go"],
  [("search", "sat/core.go"), ("counting", "dnnf, bdd, model/count"), ("optimisation", "maxsat, sat/optimizer_function.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        for fpath in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fpath), fpath
        fh.write(json.dumps(x) + "\n")
print(len(P))
