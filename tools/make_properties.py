#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "The propositional solver answers SAT/UNSAT correctly on every CNF",
 "For every DIMACS CNF file, the command-line SAT solver terminates and answers satisfiable exactly when some assignment of truth values satisfies all clauses of the file. This holds whatever the order and repetition of literals and clauses, for unit and empty clauses, and however many conflicts, learned clauses and restarts the search needs.",
 ["inputs"], "all CNF inputs in DIMACS format, including duplicate/tautological/empty clauses, comments and line layout",
 "Unit tests solve a handful of hand-written formulas; a lost watch, a wrongly minimised clause or a bad backjump shows up only on particular formulas and search histories.",
 ["src/sat_solver.cpp","src/Solver.cpp","src/bool/Bool_theory.cpp","src/Conflict_analysis.cpp","src/Subsumption.cpp"],
 [("conflict driven search loop","src/Solver.cpp: check, backtrack_with"),("watched-literal propagation","src/bool/Bool_theory.cpp"),("DIMACS reader","src/sat_solver.cpp")],
 observe=["exit status and output of the sat binary", "Solver::check result"])

prop("C02", "QF_LRA scripts get the verdict that real arithmetic dictates",
 "For every script over Booleans and linear real arithmetic that stays inside the supported syntax, each check-sat is answered `sat` exactly when some assignment of Booleans and exact rational numbers satisfies all assertions made so far, and `unsat` otherwise. The answer is produced without an error or crash, for coefficients and constants of any size.",
 ["inputs"], "all QF_LRA scripts in the supported syntax (and/or/not/=>/xor/=/distinct/ite/let, +,-,*,/, strict and non-strict comparisons, integer and decimal constants)",
 "There is no end-to-end SMT-LIB test at all; the LRA tests fix single propagation or conflict steps, while a verdict depends on parsing, CNF conversion, propagation, explanations and backtracking together.",
 ["src/smt_solver.cpp","src/parser/Smt2_parser.cpp","src/parser/Smt2_term_parser.cpp","src/parser/Solver_wrapper.cpp","src/lra/Linear_arithmetic.cpp","src/lra/Lra_conflict_analysis.cpp","src/Solver.cpp"],
 [("term construction and CNF conversion","src/terms/Term_manager.cpp, src/parser/Solver_wrapper.cpp"),("linear arithmetic plugin","src/lra/Linear_arithmetic.cpp"),("Fourier-Motzkin explanations","src/lra/Lra_conflict_analysis.cpp")],
 observe=["standard output of the smt binary"])

prop("C03", "QF_UFLRA scripts get the verdict of arithmetic plus function congruence",
 "For every script over Booleans, linear real arithmetic and uninterpreted functions or predicates (nested applications, several arguments, numeric and Boolean arguments and results), each check-sat is answered `sat` exactly when some assignment of constants and some interpretation of the functions satisfies all assertions made so far. In particular equal arguments force equal results, and nothing else about the functions is assumed.",
 ["inputs"], "all QF_UFLRA scripts in the supported syntax",
 "The UF tests exercise a few fixed propagations; missed or stale function entries appear only after particular orders of assignment and backtracking.",
 ["src/uf/Uninterpreted_functions.cpp","src/parser/Solver_wrapper.cpp","src/parser/Parser_context.cpp","src/Theory_combination.cpp"],
 [("function value table and argument watches","src/uf/Uninterpreted_functions.cpp"),("registration of applications","src/Yaga.cpp: make_function_application")],
 observe=["standard output of the smt binary"])

prop("C04", "Every model that is reported satisfies all assertions",
 "Whenever a check-sat answers `sat`, the values and function interpretations printed by a following get-model, evaluated exactly and with any value for constants that are not printed, make every assertion of the script true. Each printed value has the declared sort of its constant and the printed text is well-formed SMT-LIB, including negative numbers, fractions, functions of several arguments and names that need quotes.",
 ["inputs","configurations"], "all scripts whose check-sat answers sat, all option settings",
 "Tests never print a model; they compare internal values of single variables for fixed inputs.",
 ["src/parser/Smt2_parser.cpp","src/parser/Solver_wrapper.cpp","src/uf/Uninterpreted_functions.cpp","src/lra/Long_fraction.cpp"],
 [("model extraction","src/parser/Solver_wrapper.cpp: model"),("function interpretation","src/uf/Uninterpreted_functions.cpp: get_model"),("printing","src/parser/Smt2_parser.cpp: Print_model")],
 observe=["output of get-model"])

prop("C05", "Heuristics and options never change the verdict",
 "The answer to a problem is the same for every setting of the phase, single-value-first and bound-deduction options, every offered restart policy (as long as its parameters give the search growing stretches between restarts), and every offered variable order. Options only affect the path of the search, so all settings also terminate and report models of the same problem.",
 ["configurations","inputs"], "all option combinations, offered restart policies and variable orders, on all inputs",
 "Tests use one fixed configuration per case; bound deduction, restarts after very few conflicts and alternative orders are hardly run on whole problems.",
 ["src/Yaga.cpp","src/Options.h","src/lra/Bounds.cpp","src/Restart.h","src/variable_order/Generalized_vsids.cpp","src/variable_order/Evsids.cpp","src/bool/Bool_theory.cpp"],
 [("strategy set-up","src/Yaga.cpp: setup"),("bound deduction","src/lra/Bounds.cpp: deduce"),("phase selection","src/bool/Bool_theory.cpp: decide")],
 observe=["verdicts of the smt binary under each option", "Solver::check with custom policies"])

prop("C06", "Backtracking restores exactly the assignment of the target level",
 "At every moment each assigned variable carries exactly one value, one level and at most one reason, and its level lies between 0 and the number of decisions made. Backtracking to a level keeps exactly the assignments whose level is not above it, unchanged, including assignments made late but belonging to an earlier level, and removes value, level and reason of all others; a restart removes everything.",
 ["histories"], "all sequences of decisions, propagations at the current or an earlier level, backtracks and restarts",
 "There is no trail test; other tests use a few steps and never backtrack over late propagations across several levels and both variable sorts.",
 ["src/Trail.h","src/Trail.cpp","src/Model.h","src/Solver.cpp"],
 [("per-level assignment lists","src/Trail.h: propagate, backtrack, clear"),("value table with timestamps","src/Model.h")],
 state=[("trail","assignments per level","src/Trail.h"),("levels and reasons","per variable","src/Trail.h"),("models","values per variable","src/Model.h")],
 observe=["Trail accessors after each operation and solver event"])

prop("C07", "Every propagated literal is justified by what is already assigned",
 "Whenever the search assigns a literal without deciding it, it is either the only literal not yet false of a clause that follows from the problem, whose other literals are already false and not at a later level than the propagated one, or it is a linear constraint, or an equality between arguments of applications, whose truth value is already fixed by the assigned real variables. In every case the level recorded for it is the highest level among the assignments that force it.",
 ["histories","inputs"], "all propagations in all search histories",
 "Tests check reasons for a few fixed trails; they never observe the propagations made inside a complete search with backjumps and late propagations.",
 ["src/bool/Bool_theory.cpp","src/lra/Linear_arithmetic.cpp","src/uf/Uninterpreted_functions.cpp","src/Solver.cpp"],
 [("unit propagation","src/bool/Bool_theory.cpp: falsified"),("semantic propagation of constraints","src/lra/Linear_arithmetic.cpp: propagate"),("assertion of learned clauses","src/Solver.cpp: backtrack_with")],
 observe=["difference of the assignment before and after each propagation call"])

prop("C08", "The search decides only when nothing is left to propagate",
 "When the search makes a decision or answers `sat`, no asserted or learned clause has all literals false or all but one literal false with the last one unassigned, no linear constraint with all its real variables assigned has an unassigned or contradicting truth value, and the values still allowed for every unassigned real variable are non-empty. This holds after any number of backjumps, restarts and newly learned clauses.",
 ["histories","inputs"], "all decision points of all search histories",
 "A missed propagation usually costs only time or is repaired later, so verdict-based tests do not see it; unit tests watch a single clause or constraint for one or two steps.",
 ["src/bool/Bool_theory.cpp","src/lra/Linear_arithmetic.cpp","src/lra/Bounds.cpp","src/Theory_combination.cpp","src/Theory.cpp"],
 [("two-literal watches","src/bool/Bool_theory.cpp"),("watched variables of linear constraints","src/lra/Linear_arithmetic.cpp: replace_watch"),("fixpoint over plugins","src/Theory_combination.cpp: propagate")],
 observe=["state at each decision and at each sat answer"])

prop("C09", "Reported conflicts are real and theory explanations are valid",
 "Every conflict clause that a plugin reports is false under the current assignment, and it is either a clause of the problem (asserted or learned) or a tautology of linear real arithmetic with function congruence. Explanations derived by eliminating variables, by combining bounds or excluded values, and by function congruence therefore never exclude a real solution.",
 ["histories","inputs"], "all conflicts reported in all search histories, under every option",
 "Tests compare a few explanations with expected clauses; validity of an explanation depends on strictness, signs, disequalities, deduced bounds and Boolean arguments that occur in combinations only search reaches.",
 ["src/lra/Lra_conflict_analysis.cpp","src/lra/Linear_arithmetic.cpp","src/lra/Bounds.cpp","src/uf/Uninterpreted_functions.cpp","src/bool/Bool_theory.cpp"],
 [("Fourier-Motzkin elimination and inequality conflicts","src/lra/Lra_conflict_analysis.cpp"),("function conflicts","src/uf/Uninterpreted_functions.cpp")],
 observe=["clauses returned by each plugin's propagation"])

prop("C10", "Learned clauses follow from the problem and force progress",
 "Every learned clause is implied by the clauses and valid theory facts used to derive it, is false under the assignment at the conflict, and has either exactly one literal of the highest level (the search then backjumps to a level where that literal becomes forced and assigns it) or several such literals (the search then undoes the last decision, which assigned a real variable, and decides one of those literals to be true). The search never backjumps below the second highest level of the clause and never stays at the level of the conflict.",
 ["histories","inputs"], "all conflicts in all search histories",
 "The conflict analysis tests fix a dozen trails; mixed Boolean/arithmetic levels, late propagations, several simultaneous conflicts and minimisation combine freely only in search.",
 ["src/Conflict_analysis.cpp","src/Conflict_analysis.h","src/Solver.cpp","src/Subsumption.cpp"],
 [("resolution up to a unique implication point","src/Conflict_analysis.h: analyze"),("selection of learned clauses and backjump","src/Solver.cpp: analyze_conflicts, learn, backtrack_with")],
 observe=["learned clauses, level of the next backtrack and the assignments right after it"])

prop("C11", "Simplification and restarts never lose a constraint",
 "Clauses asserted by the user are never removed, shortened or replaced, and a learned clause disappears only when another learned clause that remains is a subset of it. Shortening a learned clause removes only literals whose removal is justified by resolving with the recorded reason of that literal, so the set of solutions never changes.",
 ["histories","inputs"], "all restarts and learned clauses in all search histories; all clause sets handed to the simplifier",
 "Tests cover about ten small clause sets and one call; the mix of old and new learned clauses, equal clauses and repeated restarts is not covered.",
 ["src/Subsumption.cpp","src/Subsumption.h","src/Solver.cpp"],
 [("signature filter and occurrence lists","src/Subsumption.cpp: subsumes, remove_subsumed"),("self-subsuming minimisation","src/Subsumption.cpp: minimize")],
 observe=["clause database before and after a restart", "clause before and after minimisation"])

prop("C12", "Each decision gives one unassigned variable a permitted value",
 "Every decision assigns exactly one variable that had no value before: a Boolean chosen by the variable order gets the value its phase setting prescribes, and a real variable gets a value that violates none of the bounds and excluded values implied by the current assignment. The search answers `sat` only when every Boolean and real variable of the problem has a value and all clauses, constraints and functions agree with them.",
 ["histories","configurations"], "all decisions of all search histories, all variable orders and phase settings",
 "Tests decide one or two variables with fixed bounds; open, half-open, point and punctured intervals and variables that become unassigned and queued again arise only in long histories.",
 ["src/lra/Linear_arithmetic.cpp","src/bool/Bool_theory.cpp","src/variable_order/Generalized_vsids.cpp","src/variable_order/Evsids.cpp","src/variable_order/First_unassigned.cpp","src/variable_order/Combined_order.h"],
 [("value selection","src/lra/Linear_arithmetic.cpp: decide, find_integer"),("variable selection","src/variable_order"),("phase","src/bool/Bool_theory.cpp: decide")],
 observe=["assignment added by each decision", "state when sat is answered"])

prop("C13", "Search always terminates and never repeats itself",
 "Every check terminates with an answer: each conflict that does not end the search or trigger a restart makes it backjump, and the backjump either assigns a literal at a kept level that was not assigned there before, or replaces an undone decision on a real variable by a Boolean decision. The search never reaches a point where it neither propagates, decides, backjumps, restarts nor answers, and no input in the supported syntax makes it loop or abort.",
 ["histories","inputs"], "all search histories without a bound on their length",
 "Non-termination cannot be observed by a finite test of a few formulas; termination hinges on fairness of the interplay of conflict analysis, backjump level and variable selection.",
 ["src/Solver.cpp","src/Conflict_analysis.cpp","src/lra/Linear_arithmetic.cpp","src/uf/Uninterpreted_functions.cpp"],
 [("assertion of the learned literal","src/Solver.cpp: backtrack_with"),("restriction of semantic splits","src/Solver.cpp: backtrack_with")],
 observe=["sequence of learned clauses, backjumps and decisions", "number of search steps"])

prop("C14", "Bounds of a real variable always reflect the current assignment",
 "At any point of the search the lower bound, upper bound and excluded values kept for an unassigned real variable are consequences of the linear constraints that are currently true together with the currently assigned real variables, and they are at least as tight as what each such constraint in that single variable implies, including strictness. Bounds that were derived from assignments undone by backtracking are never used again, also when the same constraints and variables get new values later.",
 ["histories"], "all sequences of constraint assignments, variable assignments, bound queries and backtracks",
 "Tests add a few bounds in increasing strength; outdated bounds hidden below newer ones, re-assigned variables with later timestamps and bounds derived from other bounds need longer histories.",
 ["src/lra/Variable_bounds.h","src/lra/Bounds.cpp","src/lra/Linear_arithmetic.cpp","src/Model.h"],
 [("bound stacks with timestamps","src/lra/Variable_bounds.h: is_obsolete, add_upper_bound"),("bound computation","src/lra/Bounds.cpp: update, deduce"),("timestamps","src/Model.h: set_value")],
 state=[("bounds","per real variable","src/lra/Variable_bounds.h")],
 observe=["bounds queried at every decision and after every operation"])

prop("C15", "Linear constraints keep their meaning and are shared",
 "Creating a linear constraint from any list of variables, coefficients, a comparison and a right-hand side returns a literal whose constraint is satisfied by exactly the same real assignments as the input, for variables in any order, zero, negative, fractional and very large coefficients. Scaled or negated forms of the same constraint get the same literal or its negation, and constraints that are not equivalent never share a literal.",
 ["inputs","histories"], "all constraints and all orders in which constraints are created",
 "Tests create a dozen constraints with small integers; sharing depends on hashing of normalised coefficients, and on signs and comparison kinds in combination.",
 ["src/lra/Linear_constraints.h","src/lra/Linear_constraint.h","src/lra/Linear_arithmetic.h"],
 [("normalisation","src/lra/Linear_constraints.h: make, normalize"),("hash-consing","src/lra/Linear_constraints.h"),("negation and evaluation","src/lra/Linear_constraint.h")],
 observe=["literal, variables, coefficients, comparison and right-hand side of the returned constraint"])

prop("C16", "Function applications stay congruent after every history",
 "At each decision and at each `sat` answer, any two applications of the same function whose arguments are all assigned and equal do not have different values. Function values remembered by the solver always stem from the current assignment, so a value recorded before a backtrack never causes a conflict or an entry in the reported interpretation.",
 ["histories","inputs"], "all search histories over problems with function applications",
 "Tests run a few fixed propagations for one function; stale entries and lost watches need backtracking over partially assigned, nested and Boolean arguments.",
 ["src/uf/Uninterpreted_functions.cpp","src/uf/Uninterpreted_functions.h"],
 [("watch list per variable","src/uf/Uninterpreted_functions.cpp: propagate"),("removal of entries on backtrack","src/uf/Uninterpreted_functions.cpp: on_before_backtrack")],
 state=[("function values","applications with assigned arguments","src/uf/Uninterpreted_functions.h")],
 observe=["assignment of arguments and applications at each decision", "reported function interpretation"])

prop("C17", "Building a term keeps its meaning and shares equal terms",
 "Every term built from constants, variables, arithmetic, comparisons, Boolean connectives, if-then-else and equality evaluates, under every assignment, to the value of the operation applied to the values of its arguments, whatever simplification is applied while building it. Building the same operation on the same arguments twice gives the same term, and negating a Boolean term twice gives the original term.",
 ["inputs","histories"], "all sequences of term constructions",
 "There are no tests of the term layer; simplification rules interact (constants, cancellation, negation, comparisons of equal polynomials) and depend on the terms created before.",
 ["src/terms/Term_manager.cpp","src/terms/Term_manager.h","src/terms/Terms.cpp","src/terms/Term_hash_table.cpp","src/terms/Arithmetic_polynomial.h"],
 [("simplifying constructors","src/terms/Term_manager.cpp"),("hash-consing tables","src/terms/Terms.cpp, src/terms/Term_hash_table.cpp"),("polynomial arithmetic","src/terms/Arithmetic_polynomial.h")],
 observe=["structure of the returned terms"])

prop("C18", "Local names and defined functions mean what SMT-LIB says",
 "In any nesting of let, a name refers to its innermost enclosing binding, bindings of one let are simultaneous (they see the outer scope), and after the let ends the previous meaning is restored. An application of a defined function means its body with all parameters replaced at once by the arguments, parameters hide other names only inside the body, and definitions may use earlier definitions. A quoted symbol and the same symbol without quotes are one name, whatever characters it consists of, and comments, layout and information commands mean nothing.",
 ["programs"], "all scripts with nested, shadowing and repeated let bindings and defined functions",
 "No test parses a let or define-fun; shadowing, reuse of a name after its scope, and shared subterms in a body are combinations that only a systematic generator reaches.",
 ["src/parser/Parser_context.h","src/parser/Parser_context.cpp","src/parser/Smt2_term_parser.cpp","src/terms/Term_rewriter.h"],
 [("binding frames","src/parser/Parser_context.h: Let_records"),("explicit-stack term parser","src/parser/Smt2_term_parser.cpp"),("simultaneous substitution","src/terms/Term_rewriter.h")],
 observe=["verdicts and models of scripts whose answer depends on name resolution"])

prop("C19", "Each check-sat answers for all assertions made up to it",
 "When assertions, definitions and check-sat commands are interleaved in any way, each check-sat gives the answer (and model) for exactly the conjunction of all assertions that precede it, independent of earlier checks, their verdicts, learned clauses and left-over assignments. Asking again without a new assertion gives the same verdict, and after `unsat` every later answer is `unsat`.",
 ["histories","programs"], "all interleavings of assertions and checks, all option settings",
 "Every test performs a single check on a fresh solver.",
 ["src/parser/Solver_wrapper.cpp","src/parser/Smt2_parser.cpp","src/Solver.cpp","src/bool/Bool_theory.cpp","src/uf/Uninterpreted_functions.cpp"],
 [("reset of the search state","src/Solver.cpp: init"),("incremental clause conversion","src/parser/Solver_wrapper.cpp: check")],
 observe=["sequence of verdicts and models printed for one script"])

prop("C20", "Rational numbers are exact for every magnitude",
 "Addition, subtraction, multiplication, division, inversion, negation, comparison, equality, quotients, remainders and common divisors and multiples of integers, rounding up and down, integrality, and reading and printing of numbers give the exact mathematical result in lowest terms for operands of any size. In particular results do not depend on whether operands or intermediate values fit a machine word, nor on how a value was computed.",
 ["inputs","histories"], "all sequences of operations on all rational operands, especially around the limits of machine words",
 "Existing tests compute with small numbers; overflow detection and the switch between representations fail only for particular magnitudes and signs.",
 ["src/lra/Long_fraction.h","src/lra/Long_fraction.cpp","src/lra/Rational.h"],
 [("machine-word arithmetic with overflow checks","src/lra/Long_fraction.h"),("fallback to big numbers","src/lra/Long_fraction.cpp")],
 observe=["printed value, numerator, denominator and comparisons of each result"])

prop("C21", "Restart policies follow their schedule",
 "The Luby policy asks for the i-th restart exactly after the number of learned clauses given by the i-th element of the Luby sequence times its fixed factor, and the dynamic policy never asks for a restart before its minimum number of learned clauses since the last restart and then exactly when the short-term average number of distinct levels per learned clause reaches the threshold multiple of the long-term average. The search restarts exactly when the policy asks for it after a conflict, and not otherwise.",
 ["histories","configurations"], "all sequences of learned clauses and restarts, all parameter settings",
 "Tests check the first few elements and a few averages; counter reset across restarts and long sequences are not covered.",
 ["src/Restart.h","src/Solver.cpp"],
 [("Luby countdown","src/Restart.h: Luby_restart"),("moving averages","src/Restart.h: Glucose_restart"),("restart in the search loop","src/Solver.cpp: check")],
 observe=["should-restart answers after each learned clause, restarts performed"])

prop("C22", "Activity orders always pick a most active unassigned variable",
 "An activity-based variable order picks a variable that has no value and whose activity is the highest among the variables it may pick, with a fixed tie-break, and reports that nothing is left only when every variable has a value. Bumping a variable raises its activity relative to all others by the current increment, decay makes later bumps count more, and rescaling never changes the relative order of variables with distinguishable activities.",
 ["histories","inputs"], "all sequences of bumps, decays, rescales, assignments, backtracks and picks",
 "Tests bump a few variables; heap order after updates of inner elements, re-insertion after backtracking and rescaling need long mixed histories.",
 ["src/variable_order/Evsids.cpp","src/variable_order/Evsids.h","src/variable_order/Generalized_vsids.cpp","src/variable_order/Generalized_vsids.h","src/variable_order/Variable_priority_queue.cpp","src/variable_order/Variable_priority_queue.h"],
 [("binary heap with positions","src/variable_order/Variable_priority_queue.cpp"),("exponential activities","src/variable_order/Evsids.cpp"),("re-insertion on backtrack","src/variable_order/Generalized_vsids.cpp")],
 observe=["picked variable after each operation", "queue contents"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
