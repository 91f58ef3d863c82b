#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json (one place for both).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def M(*a): return [{"name": n, "where": w} for n, w in a]
PRE = "src/core/Presolver.c"; POST = "src/core/Postsolver.c"; PP = "src/explorers/Primal_propagation.c"
PR = "src/explorers/Parallel_rows.c"; PC = "src/explorers/Parallel_cols.c"; DT = "src/explorers/DtonsEq.c"
SC = "src/explorers/StonCols.c"; SR = "src/explorers/SimpleReductions.c"; DF = "src/explorers/Simple_dual_fix.c"
CT = "src/core/CoreTransformation.c"; ACT = "src/core/Activity.c"; MAT = "src/core/Matrix.c"; CON = "src/core/Constraints.c"
PRB = "src/core/Problem.c"; ST = "src/core/State.c"; LK = "src/core/Locks.c"
ALLR = [SR, SC, DT, PR, PC, PP, DF, CT, ACT, LK]
LPTXT = "every LP in the documented form (CSR matrix, finite or infinite row sides and variable bounds, any cost) "
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, level=level, hook=hook))

WHY = "The tests presolve some hundred hand-written LPs with one or two explorers each and compare with expected matrices; "
NOTE = "Random structured LPs; oracle: own long-double simplex whose optima are certified by KKT. Trusts that simplex for infeasible and unbounded verdicts; disagreements that PSLP's tolerances explain are inconclusive (DESIGN.md)."

prop("P01", "Presolving preserves the optimal value",
 "If the original LP has an optimal value then run_presolver returns UNCHANGED or REDUCED, and the reduced problem has an optimum with optimal value + obj_offset equal to the original optimal value, up to the documented tolerances.",
 ["inputs", "configurations"], LPTXT + "with an optimum, and every combination of settings", WHY + "no test compares optimal values, and which reductions interact depends on the whole LP and the settings.",
 [PRE, PRB] + ALLR, M(("objective offset and cost updates", "src/core/Problem.c: fix_var_in_obj, sub_var_in_obj"), ("phase and cycle loop", "src/core/Presolver.c: run_presolver")),
 ["status of run_presolver", "reduced_prob and obj_offset"], "property-based testing: generated LPs, differential against a reference simplex", NOTE)
prop("P02", "INFEASIBLE is returned only for infeasible LPs",
 "Whenever run_presolver returns INFEASIBLE, the original LP has no point that satisfies all its constraints (beyond the documented tolerances).",
 ["inputs", "configurations"], LPTXT + "and every combination of settings", WHY + "a false verdict needs a particular combination of bounds, sides and earlier reductions.",
 ALLR, M(("empty row, bound crossing and activity checks", "src/explorers/SimpleReductions.c, src/core/CoreTransformation.c, src/explorers/Primal_propagation.c")),
 ["status of run_presolver"], "property-based testing: generated near-infeasible LPs against a reference simplex", NOTE)
prop("P03", "UNBNDORINFEAS is returned only when there is no optimum",
 "Whenever run_presolver returns UNBNDORINFEAS, the original LP is infeasible or its objective is unbounded.",
 ["inputs", "configurations"], LPTXT + "and every combination of settings", WHY + "only a few one-column cases of dual infeasibility are tested.",
 [SR, DF, SC, PC], M(("empty columns, dual fixing, parallel columns and free singleton columns with costs", "src/explorers")),
 ["status of run_presolver"], "property-based testing: generated near-unbounded LPs against a reference simplex", NOTE)
prop("P04", "Infeasible and unbounded LPs are never turned into solvable ones",
 "If the original LP is infeasible then presolve either says so or leaves an infeasible reduced problem; if it is feasible and unbounded then presolve either reports UNBNDORINFEAS or leaves a reduced problem that is unbounded.",
 ["inputs", "configurations"], LPTXT + "without an optimum, and every combination of settings", WHY + "losing a constraint shows only on LPs where that constraint is the decisive one.",
 ALLR, M(("every reduction removes only what is implied", "src/explorers")), ["status of run_presolver", "reduced_prob"],
 "property-based testing: spoiled LPs against a reference simplex", NOTE)
prop("P05", "Postsolving an optimal reduced point gives an optimal original point",
 "For every optimal primal solution of the reduced problem, postsolve delivers a point that is feasible for the original LP and has the original optimal value.",
 ["inputs", "configurations"], LPTXT + "with an optimum, every combination of settings, and every optimal solution of the reduced problem, vertex or not", WHY + "they postsolve one stored solution per small LP.",
 [POST] + ALLR, M(("postsolve stack, replayed in reverse", "src/core/Postsolver.c: postsolver_run")), ["sol->x after postsolve"],
 "property-based testing: several optimal reduced points per generated LP, feasibility and optimality as oracle", NOTE)
prop("P06", "Every feasible reduced point maps to a feasible point of equal objective",
 "For every feasible point of the reduced problem, optimal or not, postsolve delivers a point that is feasible for the original LP and whose objective equals the reduced objective + obj_offset; the objectives also agree for points that are not feasible.",
 ["inputs", "configurations"], LPTXT + ", every combination of settings, and every feasible point of the reduced problem", WHY + "none postsolves a point that is not optimal.",
 [POST, PRB] + ALLR, M(("primal part of the postsolve stack", "src/core/Postsolver.c")), ["sol->x after postsolve", "obj_offset"],
 "property-based testing: random feasible reduced points, invariant on the recovered point", NOTE)
DUALTXT = LPTXT + "with an optimum, every combination of settings, and every optimal primal-dual pair of the reduced problem, degenerate ones included"
prop("P07", "Postsolved duals are stationary",
 "For every optimal primal-dual pair of the reduced problem, the postsolved multipliers satisfy c = A'y + z for the original LP.",
 ["inputs", "configurations"], DUALTXT, WHY + "they check one dual solution per LP.", [POST] + ALLR,
 M(("dual part of the postsolve stack", "src/core/Postsolver.c: retrieve_*")), ["sol->y and sol->z after postsolve"],
 "property-based testing: alternative optimal reduced pairs, KKT residuals of the original LP", NOTE)
prop("P08", "Postsolved duals never point at an infinite side or bound",
 "For every optimal primal-dual pair of the reduced problem, a positive postsolved multiplier belongs to a row or column with a finite lower limit and a negative one to a row or column with a finite upper limit.",
 ["inputs", "configurations"], DUALTXT, WHY + "they check one dual solution per LP.", [POST, PP, PR, SC],
 M(("bound, side and equality changes are undone by the sign of the multiplier", "src/core/Postsolver.c: retrieve_bound_change, retrieve_lhs_change, retrieve_ineq_to_eq")), ["sol->y and sol->z after postsolve"],
 "property-based testing: alternative optimal reduced pairs, KKT signs of the original LP", NOTE)
prop("P09", "Postsolved pairs are complementary",
 "For every optimal primal-dual pair of the reduced problem, in the postsolved pair a nonzero multiplier occurs only where the row activity or the variable is at the limit that the sign of the multiplier names.",
 ["inputs", "configurations"], DUALTXT, WHY + "they check one dual solution per LP.", [POST, PP, PR, SC, PC],
 M(("bound, side and equality changes are undone", "src/core/Postsolver.c")), ["sol->x, sol->y and sol->z after postsolve"],
 "property-based testing: alternative optimal reduced pairs, KKT complementarity of the original LP", NOTE)
prop("P10", "The reduced problem is well formed and the status says what happened",
 "After UNCHANGED or REDUCED the reduced problem is a valid CSR LP: monotone row pointers that end at nnz, strictly increasing column indices in range, finite nonzero coefficients, no NaN, no crossing limits, no more rows or columns than the original. The status is REDUCED exactly when the dimensions or the number of nonzeros changed; if it is UNCHANGED then coefficients and costs are those of the original, obj_offset is 0 and postsolve leaves x as it is. Postsolve delivers solutions of the original dimensions.",
 ["inputs", "configurations"], LPTXT + "and every combination of settings", WHY + "they compare selected arrays of selected LPs.",
 [PRE, MAT, CON, PRB], M(("compaction of all arrays", "src/core/Problem.c: problem_clean"), ("final status", "src/core/Presolver.c: final_status")), ["reduced_prob", "status of run_presolver"],
 "property-based testing: structural invariants of the reduced problem over generated LPs", "Structural check of every generated result; limits may cross by 2e-6 relative (PSLP's feasibility tolerance).")
prop("P11", "The user's arrays are deep-copied and never written",
 "new_presolver, run_presolver and postsolve never modify the arrays and settings that the user passed; and once new_presolver has returned, the result of run_presolver and postsolve does not depend on what happens to the arrays.",
 ["inputs", "histories"], LPTXT + ", every combination of settings, and every later content of the user's arrays", "The tests keep their arrays alive and do not look at them again.",
 [PRE, MAT, "include/PSLP/PSLP_API.h"], M(("copies of all arrays", "src/core/Presolver.c: new_presolver")), ["the user's arrays", "reduced_prob", "sol"],
 "property-based testing: metamorphic relation (arrays kept against arrays overwritten and freed)", "Bitwise comparison of inputs before and after each call and of the results of both runs.")
prop("P12", "Presolver objects are independent of each other and of the heap",
 "Whatever sequence of create, run, postsolve and free operations on several presolver objects is executed, each object delivers exactly the reduced problem, statistics counts and solutions that it delivers alone; in particular results do not depend on what uninitialised memory contains.",
 ["histories", "inputs"], "every interleaving of the operations on two to four presolver objects over generated LPs and settings, and every content of fresh memory", "The tests use one object at a time, and leave its memory as the allocator gave it.",
 [PRE, ST, "src/core/Workspace.c", PR, PP], M(("all state is owned by the presolver object", "src/core/Presolver.c")), ["reduced_prob", "stats", "sol"],
 "stateful property-based testing: random histories on a poisoned heap against isolated runs", "Bitwise differential between each object in a random history and the same object alone with zeroed memory.")
prop("P13", "Postsolve is repeatable",
 "Postsolving any sequence of solutions with one presolver gives for each of them the same result as postsolving it first on a fresh presolver, and leaves the reduced problem and the statistics counts as they were.",
 ["histories", "inputs"], "every sequence of postsolve calls with several solutions of the reduced problem", "The tests call postsolve once per presolver.",
 [POST, PRE], M(("postsolve stack is read-only during a replay", "src/core/Postsolver.c: postsolver_run")), ["sol after each call", "reduced_prob"],
 "stateful property-based testing: random postsolve sequences against fresh presolvers", "Bitwise differential.")
prop("P14", "The API is memory safe and does not leak",
 "No sequence of documented calls on valid input reads or writes out of bounds, uses freed memory, or executes undefined arithmetic, and after free_presolver and free_settings nothing that the library allocated is still allocated.",
 ["histories", "inputs", "configurations"], LPTXT + ", every combination of settings, and sequences new, run, any number of postsolves, free, with some steps left out", "The test suite runs without sanitizers on a few hundred inputs.",
 [MAT, CON, PRE, POST, "include/data_structures/Vec_macros.h"], M(("row and column storage with moving space", "src/core/Matrix.c"), ("vectors", "include/data_structures/Vec_macros.h")), ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "allocation count"],
 "property-based testing under ASan/UBSan with allocation accounting", "Exact-size heap copies of all inputs; memcpy with a null pointer and length 0 is not counted (nonnull-attribute off).")
prop("P15", "The time limit ends presolve early but never wrongly",
 "Whatever max_time is, run_presolver returns a problem that satisfies the value, well-formedness and recovery guarantees: optimal value preserved, and optimal reduced solutions postsolve to optimal original primal and dual solutions. With max_time = 0 it ends after the first phase.",
 ["inputs", "configurations", "schedules"], "every LP and every moment at which the time limit strikes", "No test sets a time limit.",
 [PRE], M(("termination criterion", "src/core/Presolver.c: update_termination")), ["reduced_prob", "sol after postsolve"],
 "property-based testing with time limits from 0 to 100 us, reference simplex and KKT as oracle", NOTE + " The limit is checked between phases, so the reachable stopping points are the phase boundaries.")
prop("P16", "new_presolver survives every failed allocation",
 "If any allocation inside new_presolver fails, in whichever thread, new_presolver returns NULL without crashing, leaking or freeing anything twice; if its helper thread cannot be started it returns NULL or an object that presolves the same.",
 ["fault_sequences", "inputs"], "every single allocation of new_presolver failing, on both threads, and thread creation failing, for generated LPs including ones with long initial lists", "The tests never make an allocation fail.",
 [PRE, ST, "src/core/Workspace.c", POST, MAT], M(("cleanup path", "src/core/Presolver.c: presolver_clean_up")), ["return value", "allocation count", "AddressSanitizer reports"],
 "property-based fault injection: every allocation fails in turn, under ASan/UBSan", "Every single-fault position is enumerated for each generated LP; multiple simultaneous faults are not.", "fault_enumeration")
prop("P17", "Without dual reductions no feasible point is lost",
 "With the reductions that argue with the objective switched off (column singletons, dual fixing, parallel columns), every feasible point of the original LP restricted to the remaining columns is feasible for the reduced problem.",
 ["inputs", "configurations"], LPTXT + ", every combination of the other settings, and every feasible point (vertices, optimal or not, and interior points)", WHY + "a bound that is tightened too far cuts off points that the one tested solution does not visit.",
 [PP, DT, PR, SR, ACT], M(("bound propagation", "src/explorers/Primal_propagation.c"), ("activities", "src/core/Activity.c")), ["reduced_prob"],
 "property-based testing: random feasible points of generated LPs, containment in the reduced problem", NOTE)
prop("P18", "Presolve leaves nothing trivial behind",
 "After UNCHANGED or REDUCED the reduced problem has no empty rows, no rows with one entry and no empty columns, whatever the settings.",
 ["inputs", "configurations"], LPTXT + "and every combination of settings", WHY + "whether a late reduction creates a trivial row that is not revisited depends on the order of reductions.",
 [PRE, SR, CON], M(("exhaustive trivial reductions before every phase and at the end", "src/core/Presolver.c: run_trivial_explorers")), ["reduced_prob"],
 "property-based testing: invariant of the reduced problem over generated LPs and settings", "Checked on every generated result.")
prop("P19", "Switched-off reductions leave no trace",
 "A stage that is switched off removes no nonzeros according to the statistics; with all substitutions off every reduced row is a row of the original restricted to the remaining columns, with unchanged coefficients and costs; with all tightening off bounds change only where rows with at most one remaining entry imply it; with relax_bounds and parallel_cols off no bound of a remaining column gets weaker. The settings helpers switch every documented stage on or off, and default_settings has all of them on.",
 ["configurations", "inputs"], "every combination of settings over generated LPs", "The tests use few of the 2^8 combinations of switches.",
 [PRE, PP, DT, SC, PR, PC, DF], M(("switches", "src/core/Presolver.c: run_fast_explorers, run_medium_explorers")), ["reduced_prob", "stats", "Settings"],
 "property-based testing: random switch combinations, relation between original and reduced rows, costs and bounds", "Columns are identified through postsolve of marked points; cases where a removed column takes the same value are inconclusive.")
prop("P20", "The statistics describe what happened",
 "Original and reduced dimensions in the statistics equal those of the problems, the removed nonzeros reported for the stages add up to the difference between original and reduced nonzeros; all reported times are nonnegative, times of stages that are off are zero, and no reported time, nor any sum of parts, exceeds the time that the call took.",
 ["inputs", "configurations"], LPTXT + "and every combination of settings", "The tests read no statistics.",
 [PRE, "include/PSLP/PSLP_stats.h"], M(("counters around each stage", "src/core/Presolver.c: run_presolver, run_medium_explorers")), ["stats"],
 "property-based testing: accounting invariant over generated LPs and settings", "Exact comparison of integers.")
prop("P21", "Presolve composes",
 "The reduced problem can be presolved again, with any settings and repeatedly: the final optimal value plus all offsets is the original optimal value, and postsolving through all levels gives an optimal primal-dual solution of the original LP.",
 ["inputs", "configurations", "histories"], LPTXT + "with an optimum and two or three levels of presolve with any settings", "No test feeds a reduced problem back.",
 [PRE, POST, CON], M(("output has the form of the input", "src/core/Presolver.c: populate_presolved_problem")), ["reduced_prob", "sol"],
 "property-based testing: metamorphic composition of presolves, reference simplex and KKT as oracle", NOTE)
prop("P22", "All guarantees hold on large LPs",
 "On LPs with hundreds to thousands of rows, made of many interacting structures, the value, recovery, well-formedness, exhaustiveness and statistics guarantees hold as on small ones.",
 ["inputs", "configurations"], "LPs with up to some thousand rows and columns made of many structured blocks, with and without rows that link them", "The tests use LPs with at most a few dozen rows, where lists never grow, hashes never collide and storage never moves.",
 [PRE, MAT, CON, PR, POST, "include/data_structures/Vec_macros.h"], M(("growing vectors, hash buckets, storage shifting", "src/core/Matrix.c, src/explorers/Parallel_rows.c")), ["reduced_prob", "sol", "stats"],
 "property-based testing: large block-structured LPs, reference simplex per connected component", NOTE)
prop("P23", "Different presolvers can be used in different threads",
 "Creating, running, postsolving and freeing different presolver objects concurrently in different threads is free of data races and gives each thread exactly what it gets alone.",
 ["schedules", "inputs"], "every schedule of two to four threads that each use their own presolver object over generated LPs and settings", "The tests are single-threaded.",
 [PRE, PR, PP, "include/core/pslp_thread.h"], M(("no shared mutable state", "src/explorers/Parallel_rows.c, src/explorers/Primal_propagation.c"), ("helper thread of the initialisation", "src/core/Presolver.c: new_presolver")), ["ThreadSanitizer reports", "reduced_prob", "sol"],
 "property-based testing under ThreadSanitizer, differential against sequential runs", "ThreadSanitizer sees races in the executed schedules (happens-before), not only in those that go wrong.")
prop("P24", "verbose only controls printing",
 "With verbose off no call writes anything to standard output or standard error, and the results are the same whether verbose is on or off.",
 ["inputs", "configurations"], LPTXT + ", every combination of settings, and every status of the presolver, time limit included", "The tests do not look at the output.",
 [PRE], M(("output guarded by the setting", "src/core/Presolver.c")), ["standard output and error", "reduced_prob", "sol"],
 "property-based testing: captured output, differential between verbose on and off", "Captured with file descriptors, so output of any kind counts.")
prop("P25", "Every call returns",
 "On every valid input every API call returns; in particular bounds that tighten each other through cycles of rows do not keep run_presolver busy beyond the effort that the size of the LP justifies.",
 ["inputs", "configurations"], LPTXT + "including cycles of rows with factors close to one and large bounds, and every combination of settings", "The tests contain no slowly converging cycles.",
 [PRE, PP], M(("termination criterion", "src/core/Presolver.c: update_termination"), ("rounds of bound propagation", "src/explorers/Primal_propagation.c")), ["return of each call"],
 "property-based testing: generated propagation cycles and large LPs under a CPU limit", "A call that needs more than 10 s CPU (typical: below 1 ms) counts as not returning.")
prop("P26", "Postsolve tolerates solutions of ordinary accuracy",
 "If the primal-dual pair handed to postsolve satisfies the optimality conditions of the reduced problem up to a small error, as iterative solvers deliver it, then the postsolved pair satisfies those of the original LP up to a moderate multiple of that error; no decision in postsolve flips because of it.",
 ["inputs", "configurations"], LPTXT + "with an optimum, every combination of settings, and every perturbation of an optimal reduced pair by a relative error of up to 3e-7", "The tests postsolve exact solutions only.",
 [POST], M(("decisions by the sign of the multiplier", "src/core/Postsolver.c: retrieve_bound_change, retrieve_lhs_change, retrieve_rhs_change, retrieve_parallel_col")), ["sol after postsolve"],
 "property-based testing: noisy optimal reduced pairs, KKT residuals of the original LP", NOTE + " Threshold: residual 2e-2 for noise of at most 3e-7.")

prop("P27", "The internal consistency checks of a debug build never fail",
 "On every valid input a build with assertions and PSLP's own consistency checks (activities, locks, sizes, tags, both copies of the matrix, absence of duplicates in work lists) creates, runs and postsolves without aborting, for optimal reduced solutions; and at each of these checks the finite row activities have the value that the current bounds give.",
 ["inputs", "configurations"], DUALTXT, "The tests run in debug mode but on few inputs; users who debug their own program get an abort inside PSLP.",
 ["src/core/Debugger.c", PRE, POST] + ALLR, M(("consistency checks between the phases", "src/core/Debugger.c: run_debugger"), ("assertions", "src")), ["abort of the process"],
 "property-based testing: generated LPs in a debug build with all internal invariants as oracle", "Every assertion and Debugger.c check that the executed paths contain, plus the values of the row activities recomputed at each check (PSLP's own check only counts infinite contributions); exactly optimal pairs are postsolved.")
prop("P28", "relax_bounds only drops bounds that the constraints imply",
 "Switching relax_bounds on changes nothing in the reduced problem except that some finite bounds become infinite; every dropped bound is still implied by the remaining constraints, all of them together; and afterwards no upper bound (nor lower bound of a column without an upper bound) is implied by a single row and the bounds of its other columns.",
 ["inputs", "configurations"], LPTXT + "and every combination of the other settings", "The tests call the function on one or two LPs and not with other reductions.",
 [PRE, PP, ACT], M(("removal of redundant bounds, with activities kept up to date", "src/explorers/Primal_propagation.c: remove_redundant_bounds")), ["reduced_prob"],
 "property-based testing: metamorphic relation between runs with relax_bounds on and off, implied bounds recomputed with the reference simplex", NOTE)
prop("P29", "A reduction that is on leaves none of its targets",
 "With exactly one stage switched on (after the trivial reductions): parallel_rows leaves no two proportional rows and reports contradictory ones; parallel_cols leaves no two proportional columns with proportional costs; dual_fix leaves no column that neither cost nor rows keep from a bound and reports unlimited ones; dton_eq leaves no doubleton equality with a moderate pivot; ston_cols leaves no free, no dual fixable and in equalities no one-sided singleton column; primal_propagation removes rows that the bounds make redundant, reports rows that cannot be satisfied, and takes over implied bounds, improvements of finite ones only with finite_bound_tightening; the trivial reductions leave no fixed column. (Stages that create new targets for themselves: below 20 nonzeros or when nothing was removed, since presolve stops when a cycle removes less than 5%.)",
 ["inputs", "configurations"], LPTXT + "and every single stage", "A reduction that misses some of its targets gives a correct but larger problem, so no test of values or solutions notices.",
 [PR, PC, DF, DT, SC, PP, PRE], M(("search for targets", "src/explorers"), ("lists of rows and columns to look at", "src/core/State.c, src/core/Constraints.c")), ["reduced_prob", "status of run_presolver"],
 "property-based testing: targets recomputed from scratch on the generated original and on the reduced problem", "Margins keep clear of PSLP's tolerances; groups that hash collisions can hide are excluded.")
prop("P30", "Contradictions and rays visible at sight lead to a verdict",
 "If an LP has an empty row whose sides exclude 0, a column whose bounds and singleton rows contradict each other, or an empty column (with dual_fix: any column that no row holds back) along which the objective improves without limit, then run_presolver returns INFEASIBLE or UNBNDORINFEAS, whatever the settings.",
 ["inputs", "configurations"], LPTXT + "with such a contradiction or ray, and every combination of settings", "The tests contain a handful of such LPs with most settings on.",
 [SR, DF, CT, PRE], M(("trivial reductions before the first phase", "src/core/Presolver.c: run_trivial_explorers")), ["status of run_presolver"],
 "property-based testing: contradictions recomputed from the input of generated spoiled LPs", "Contradictions below 1e-3 relative are not claimed.")
prop("P31", "The trivial reductions do exactly what they should",
 "With everything switched off except possibly dual_fix and parallel_rows, the reduced problem is the original after the textbook reductions and nothing else: fixed columns are substituted, rows with one entry become bounds, empty rows and columns go (dual_fix: also columns that neither cost nor rows keep from a bound, together with the rows that this makes redundant, in two rounds at least; parallel_rows: proportional rows are merged), repeatedly. The remaining rows, columns, sides, bounds, costs and the offset, the verdict when these reductions end in a contradiction, and the recovered values of removed columns with a forced value are those of a straightforward reference.",
 ["inputs", "configurations"], LPTXT + "and any combination of dual_fix and parallel_rows", "The tests compare some dozens of LPs with expected matrices; long chains of reductions that enable each other, with arbitrary signs and infinite limits, are not among them.",
 [SR, DF, PR, CT, CON, PRB, PRE], M(("trivial reductions to a fixpoint", "src/core/Presolver.c: run_trivial_explorers"), ("substitution of fixed columns", "src/explorers/SimpleReductions.c: delete_fixed_cols_from_problem")), ["reduced_prob", "status of run_presolver", "sol->x after postsolve"],
 "property-based testing: differential against a reference implementation of the trivial reductions", "Limits that differ by more than rounding but less than 1e-3 are too close to call; dual fixing may stop before its last round; proportional rows are merged on both sides before the comparison.")
prop("P32", "A dual bound for the reduced problem is one for the original",
 "For every dual feasible solution (y, z) of the reduced problem, optimal or not and whatever the primal values handed in with it, postsolve delivers a dual feasible solution of the original LP (stationary, every multiplier pointing at a finite limit) that proves at least the same lower bound (reduced dual objective + obj_offset). For multipliers that are stationary but have arbitrary signs the postsolved ones are stationary.",
 ["inputs", "configurations"], LPTXT + ", every combination of settings, and every dual feasible solution of the reduced problem", WHY + "none postsolves a dual solution that is not optimal, as a solver that stops early has it.",
 [POST] + ALLR, M(("dual part of the postsolve stack", "src/core/Postsolver.c")), ["sol->y and sol->z after postsolve", "obj_offset"],
 "property-based testing: dual feasible reduced solutions from random primal limits, invariant on the postsolved multipliers", "Dual feasible solutions are optimal solutions of the reduced LP with its finite limits moved at random (same dual feasible set), and mixtures of them.")

prop("P33", "Nothing depends on the unit of the objective",
 "With all costs multiplied by a power of two (from 2^-30 to 2^12), presolve returns the same status and the same reduced rows, columns, sides and bounds, with the costs and obj_offset multiplied by the same number; postsolve of the same x with y and z multiplied by it delivers the same x and the multiplied duals. All exactly: such a factor does not change a rounding.",
 ["inputs", "configurations"], LPTXT + ", every combination of settings and every power of two that keeps the numbers in range", WHY + "the tests have costs near 1 only, where absolute thresholds on costs or duals go unnoticed.",
 [POST] + ALLR, M(("costs of substituted and merged columns", "src/core/Problem.c"), ("comparison of the costs of parallel columns", "src/explorers/Parallel_cols.c"), ("dual fixing", "src/explorers/SimpleReductions.c")), ["return value", "reduced_prob", "sol after postsolve"],
 "property-based testing: metamorphic, one LP in two units of the objective", "Exact comparison; no reference solver involved.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: allocation faults, leak accounting and heap poisoning use link-time wrapping of malloc, calloc, realloc, free and pthread_create. Known findings and fixes: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P))
