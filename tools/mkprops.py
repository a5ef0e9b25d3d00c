#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    P.append(d)

prop("C01","An OPTIMAL answer satisfies the KKT conditions within the tolerances",
 "Whenever solving reports Optimal, the returned x, y, z, s satisfy, recomputed from the caller's own P, A, G, c, b, h: ||Px+c+A'y+G'z||, ||Gx+s-h|| and (if there are equalities) ||Ax-b|| are each below RELTOL/sqrt(3), s'z/m is below ABSTOL, and every s and z is strictly positive. This holds for every problem, every input format and every setting of the tolerances, including problems that have no solution (which therefore are never reported Optimal).",
 ["inputs","configurations"],"all consistent (n,m,p,P,A,G,c,h,b), feasible or not, bounded or not, any tolerances, limits, ordering and input format",
 "The unit tests call small helpers and a few fixed solves without asserting the solution against the problem data; nothing recomputes the optimality conditions, and no infeasible or unbounded problem is tried.",
 ["src/qpSWIFT.c","src/Auxilary.c"],
 [("exit test on n_rx,n_ry,n_rz,n_mu before each step","src/qpSWIFT.c:QP_SOLVE"),("residual computation","src/Auxilary.c:computeresiduals"),("SparseMatrixMultiply / SparseMatrixTransMultiply","src/Auxilary.c")],
 [("x,y,z,s","current primal-dual iterate","QP struct"),("stats->Flag","exit code","stats struct")],["return value of QP_SOLVE","QP x,y,z,s","Python result['sol'],['advInfo']"])

prop("C02","Every well-posed convex QP is solved to its true optimum within the limit",
 "For every convex QP with a strictly feasible interior, a bounded optimum and full-row-rank equalities, of moderate scaling, solving with default settings ends Optimal within the default iteration limit, and x and the objective equal the true optimum up to the tolerance. This includes linear programs (P = 0 or singular P), all-zero rows or columns of G, single-variable and single-constraint problems, redundant inequalities, and constraints active with zero multiplier.",
 ["inputs"],"all strictly feasible bounded convex QPs of moderate scaling, any sparsity pattern, n,m >= 1, p >= 0",
 "Tests solve a handful of fixed problems and do not compare the answer with an independently known optimum; sparsity patterns such as empty constraint rows are never sampled.",
 ["src/qpSWIFT.c","src/Auxilary.c","src/ldl.c"],
 [("Mehrotra predictor-corrector loop","src/qpSWIFT.c:QP_SOLVE"),("starting point","src/Auxilary.c:kkt_initialize"),("KKT assembly and update","src/Auxilary.c:formkktmatrix_full,updatekktmatrix"),("LDL' factor and solve","src/ldl.c")],
 [("x","primal solution","QP struct"),("stats->fval","objective value","stats struct")],["QP_SOLVE result, x, fval"])

prop("C03","Iterates stay strictly interior and steps stay in (0,1]",
 "From setup on and after every iteration all slacks s and inequality multipliers z are strictly positive; every accepted primal and dual step length lies in (0,1] and is the largest allowed one backed off by 1%, so no step ever reaches or crosses the boundary. As a consequence the primal residuals b-Ax and h-Gx-s shrink by exactly the factor (1-primal step) in every iteration and never grow.",
 ["inputs","histories"],"every iteration of every run from every starting problem, including infeasible and badly centred ones",
 "Tests check one step-length example; the invariant quantifies over all iterates of all runs.",
 ["src/qpSWIFT.c","src/Auxilary.c"],
 [("findsteplength and the 0.99 back-off","src/Auxilary.c:findsteplength, src/qpSWIFT.c:QP_SOLVE"),("initial s,z shift","src/Auxilary.c:kkt_initialize"),("updatevariables with alpha_p for x,s and alpha_d for y,z","src/qpSWIFT.c:QP_SOLVE")],
 [("s,z","slacks and multipliers","QP struct"),("alpha_p,alpha_d","last step lengths","stats struct")],["QP s,z, stats alpha_p, alpha_d after each iteration"])

prop("C04","Exit codes and the iteration limit follow one protocol",
 "Solving performs at most the configured number of iterations; it stops at the first iterate passing the convergence test and reports Optimal with the number of iterations taken, and otherwise reports Maximum-Iterations with exactly the limit. The returned code equals the code stored in the statistics, is one of the documented ones, and the limit only truncates the run: every iterate under a smaller limit equals the iterate of the same number under a larger one. A factorisation that fails is reported as the factorisation failure with the iterate reached, and the object keeps reporting it.",
 ["inputs","configurations"],"all problems and all iteration limits (0, 1, ..., beyond convergence), tolerances, NaN/Inf or infeasible data included; factorisation failures at setup and at any iteration",
 "Tests never vary the limit; off-by-one and stale-flag errors only show for particular limits relative to the convergence iteration.",
 ["src/qpSWIFT.c"],
 [("for loop over maxit, break on convergence, flag after loop","src/qpSWIFT.c:QP_SOLVE")],
 [("IterationCount","iterations since setup","stats struct"),("Flag","exit code","stats struct"),("options->maxit","limit","settings struct")],["QP_SOLVE return value, stats"])

prop("C05","Every iteration is the Mehrotra predictor-corrector Newton step",
 "The starting point solves the regularised equality-constrained problem and shifts s and z to be at least positive as documented. Each iteration then moves along the solution of the linearised KKT system [P A' G'; A 0 0; G 0 -S/Z] whose right-hand side combines the residuals with the predictor, second-order corrector and centering term sigma*mu with sigma = max(sigma_d, min(1,rho)^3), or the pure centering step when the centering parameter is not above sigma_d; the direction is accurate to rounding (up to the documented dynamic regularisation of vanishing pivots) for every problem whose KKT matrix is nonsingular.",
 ["inputs","histories"],"every iteration of every run, every n,m,p, sparsity pattern, ordering, sigma_d and starting sigma",
 "A wrong term still usually converges (more slowly or less accurately), so tests that only need a final answer, or none, cannot see it.",
 ["src/qpSWIFT.c","src/Auxilary.c","src/ldl.c"],
 [("form_ds, formrho, formlambda, updatekktmatrix(_b)","src/Auxilary.c"),("kktsolve_1, kktsolve_2, ldlinitialsolve","src/Auxilary.c"),("kkt_initialize","src/Auxilary.c"),("LDL_numeric, solves and permutations","src/ldl.c")],
 [("x,y,z,s","iterate","QP struct"),("options->sigma","centering parameter of the last step","settings struct")],["consecutive iterates under increasing limits"])

prop("C06","The result does not depend on the elimination ordering or labelling",
 "With any valid permutation supplied by the caller, or with the built-in AMD ordering, the solver reports the same exit code, the same number of iterations and the same x, y, z, s up to rounding; relabelling variables, inequalities or equalities merely relabels the result. (Where an order leads elimination through vanishing pivots whose documented replacement ruins the factorisation, the outcome may differ.) The supplied permutation is used as given and not altered.",
 ["inputs","configurations"],"all permutations of the KKT dimension, all problems; all relabellings of variables and constraints",
 "Tests use one permutation at most; an ordering bug needs a particular permutation and sparsity pattern to show.",
 ["src/qpSWIFT.c","src/ldl.c","src/amd_1.c","src/amd_2.c","src/amd_order.c"],
 [("Permut / AMD selection","src/qpSWIFT.c:QP_SETUP, QP_SETUP_dense"),("LDL_symbolic, LDL_numeric with P, Pinv; LDL_perm/permt","src/ldl.c")],
 [("kkt->P","ordering in use","kkt struct")],["x,y,z,s, stats for different Permut"])

prop("C07","All input formats of the same problem give the same result",
 "The sparse entry point, the dense entry point in row-major order and the dense one in column-major order give, for the same mathematical problem, the same exit code, iteration count and solution up to rounding. Explicitly stored zeros, negative zeros, or the order of row indices inside a column of the sparse input do not change the answer.",
 ["inputs","configurations"],"all problems including rectangular and empty-pattern matrices, all three formats, all column-internal orders",
 "Tests use square or single examples per format, where a transposed or mis-strided conversion can go unnoticed.",
 ["src/qpSWIFT.c","src/Auxilary.c"],
 [("densetosparse, densetosparse_ROWMAJOR","src/Auxilary.c"),("QP_SETUP vs QP_SETUP_dense","src/qpSWIFT.c")],
 [("P,A,G","matrices held by the solver","QP struct")],["results and stored matrices of the three entry points"])

prop("C08","Caller data is never written or freed and all memory is returned",
 "Setup, solve and cleanup never write to or free any array passed in (matrices, vectors, permutation), so these may be read-only or shared. Every block the library allocates is freed exactly once by the matching cleanup after any legal call history (with or without solve, equalities, own permutation, sparse or dense), and the library never reads or writes outside the arrays it was given or allocated.",
 ["inputs","histories","configurations"],"all legal histories setup;{solve|set options}*;cleanup for all problem shapes and formats, with or without equalities and user permutation, and AMD failing for lack of memory or the factorisation failing",
 "Tests run without leak or bounds checking on a few shapes; leaks or overruns need a particular combination of optional arguments and sizes.",
 ["src/qpSWIFT.c","src/Auxilary.c","src/ldl.c","src/amd_1.c","src/amd_order.c"],
 [("allocation in setup and ldlinitialsolve","src/qpSWIFT.c, src/Auxilary.c"),("QP_CLEANUP, QP_CLEANUP_dense, AMD_RESULT==-3 convention","src/qpSWIFT.c")],
 [("AMD_RESULT","-3 marks a caller-owned permutation","stats struct")],["allocator calls, caller arrays before and after"])

prop("C09","Solver objects are independent and runs are reproducible",
 "Any number of solver objects may exist at once, and setup, solve and cleanup of different objects may be interleaved in any order or run in parallel threads: each object gives bit-for-bit the result it gives alone. Repeating the same setup and solve in the same process gives the identical result every time.",
 ["schedules","histories"],"all interleavings of API calls on several objects, including parallel threads and shared read-only input arrays; all repetitions",
 "Tests use one object at a time in one thread.",
 ["src/qpSWIFT.c","src/Auxilary.c","src/ldl.c","src/amd_2.c","src/timer.c"],
 [("no static or global mutable state; all workspaces per object","src/*.c")],
 [("QP object","all state of one solve","QP struct")],["results of interleaved and threaded runs"])

prop("C10","Equality constraints are optional and honoured exactly when supplied",
 "If p is 0, or any of the equality inputs (the A arrays or b) is a null pointer, the problem is solved exactly as the problem without equality constraints, whatever the other equality arguments are, and no equality multiplier is touched. If all are supplied with p > 0, the equalities are part of the problem: the optimum satisfies Ax=b and stationarity includes A'y.",
 ["inputs","configurations"],"all combinations of null and non-null equality arguments and p, in all formats, with and without a user permutation",
 "Tests cover only the two obvious combinations.",
 ["src/qpSWIFT.c","src/Auxilary.c","python/pyqpSWIFT.c"],
 [("if (Apr && Ajc && Air && b && p != 0)","src/qpSWIFT.c:QP_SETUP"),("if (Apr && b && p != 0)","src/qpSWIFT.c:QP_SETUP_dense"),("p==0 branches in residuals, exit test, initial point","src/Auxilary.c, src/qpSWIFT.c")],
 [("QP->p, QP->A","equalities in use","QP struct")],["results with partial equality arguments"])

prop("C11","The assembled KKT matrix is the block matrix of the problem",
 "For every sparsity pattern (empty rows, empty columns, no equalities, fully dense), the KKT matrix formed at setup is exactly [P A' G'; A 0 0; G 0 -I], stored as a well-formed compressed-column matrix within its allocated size, and each update replaces precisely the lower-right diagonal by -s/z (or its documented variants) and nothing else. The matrices the solver holds for P, A, G and their transposes represent the caller's matrices exactly.",
 ["inputs"],"all patterns and values of P, A, G, all dimensions",
 "Tests assemble one or two dense-pattern examples; an empty row or column is never sampled.",
 ["src/Auxilary.c","src/qpSWIFT.c"],
 [("formkktmatrix_full","src/Auxilary.c"),("updatekktmatrix","src/Auxilary.c"),("SparseMatrixTranspose","src/Auxilary.c"),("kkt_nnz sizing","src/qpSWIFT.c")],
 [("kkt->kktmatrix","the KKT matrix","kkt struct")],["kktmatrix after setup and after iterations"])

prop("C12","Reported statistics describe the returned iterate and the run",
 "After an Optimal solve the reported objective equals 0.5x'Px+c'x, the reported residual norms and duality measure equal those recomputed at the returned x, y, z, s, the iteration count equals the number of steps taken, and the step lengths are those of the last step. Reported times are finite and non-negative, and setup, solve, KKT and factorisation times respect their nesting (factorisation <= KKT <= solve <= elapsed wall time).",
 ["inputs","histories"],"every completed solve of every problem; statistics after any history",
 "No test compares a statistic with an independent computation.",
 ["src/qpSWIFT.c","src/Auxilary.c","src/timer.c"],
 [("obj_value, computeresiduals, norm, innerproduct","src/Auxilary.c"),("tic/toc","src/timer.c"),("stats assignments","src/qpSWIFT.c:QP_SOLVE")],
 [("stats","reported statistics","stats struct")],["stats fields; Python basicInfo and advInfo"])

prop("C13","The Python interface accepts exactly the well-formed calls",
 "A call to the Python function is accepted if and only if c, h, P, G (and A, b when both are given) are floating-point arrays of the required number of dimensions and mutually consistent shapes and every option has the documented type and range; otherwise it raises the documented exception with the documented message and no solve happens. No argument combination crashes the interpreter or leaves it in an inconsistent state, and an invalid OUTPUT only warns and uses the default.",
 ["inputs","configurations"],"all combinations of argument presence, dtype, dimensionality, shape and option type/value",
 "Tests run one valid call; the decision table has thousands of rows and its order of checks matters.",
 ["python/pyqpSWIFT.c","python/qpSWIFT_help.rst"],
 [("argument checks","python/pyqpSWIFT.c:method_qpSWIFT"),("option checks","python/pyqpSWIFT.c:method_qpSWIFT")],
 [],["exception type and message, or result"])

prop("C14","Python results are exactly the native solver's results",
 "For every accepted call the Python result equals what the C library returns for the same data and options, whatever the dtype, byte order, memory layout (C, Fortran, strided, subclass) of the arrays: 'sol' always, 'basicInfo' for OUTPUT 1 and 2, 'advInfo' (with y only if equalities were given) for OUTPUT 2. The caller's arrays are unchanged, results are fresh arrays, repeated calls do not leak references or memory, and calls from several threads give the same results.",
 ["inputs","configurations","schedules"],"all accepted calls, all array layouts and dtypes, all output levels, concurrent callers",
 "Tests only check that a call returns; layouts, output levels and repetition are not sampled.",
 ["python/pyqpSWIFT.c"],
 [("getptr: contiguous copy and cast","python/pyqpSWIFT.c:getptr"),("option copy and result building","python/pyqpSWIFT.c:method_qpSWIFT")],
 [],["returned dictionary, argument arrays, reference counts"])

prop("C15","Options take effect as documented and printing never alters results",
 "A new object has the documented default settings, and each setting changed between setup and solve governs exactly its own aspect: a tighter or looser RELTOL or ABSTOL moves the stopping point along the same sequence of iterates, sigma and sigma_d select the step rule, the limit bounds iterations. Any VERBOSE level leaves the computed result bit-for-bit unchanged; with 0 nothing is printed, and with a positive level the printed per-iteration lines report the true cost, residuals, duality measure and step lengths in iteration order with the final status.",
 ["inputs","configurations"],"all problems and all combinations of option values, native and through Python",
 "Tests do not vary options and never compare printed output with the run.",
 ["src/qpSWIFT.c","include/GlobalOptions.h","python/pyqpSWIFT.c"],
 [("defaults","src/qpSWIFT.c:QP_SETUP"),("verbose printing","src/qpSWIFT.c:QP_SOLVE"),("option copy","python/pyqpSWIFT.c")],
 [("options","settings","settings struct")],["results, standard output"])

prop("C16","AMD always returns a valid fill-reducing permutation or a proper error",
 "For every square sparsity pattern, symmetric or not, with or without diagonal, dense rows, empty rows, duplicates or unsorted columns, the AMD ordering returns a true permutation of 0..n-1 with status OK (or OK-but-jumbled exactly when a column is unsorted or has duplicates), deterministically, without modifying its input, and its reported statistics (symmetry, nonzeros of the pattern and of A+A', upper bound on fill) are right. Invalid input gives the documented invalid status and a failed allocation the out-of-memory status, with nothing leaked; the solver then falls back to the natural ordering and still works. The package's validity test, preprocessing, postordering, default parameters and printed reports are as documented.",
 ["inputs","fault_sequences"],"all patterns of all sizes, all allocation-failure points, all invalid inputs",
 "Tests order one or two matrices; aggressive absorption, dense rows, workspace garbage collection and jumbled input need special patterns.",
 ["src/amd_1.c","src/amd_2.c","src/amd_aat.c","src/amd_order.c","src/amd_valid.c","src/amd_preprocess.c","src/amd_postorder.c","src/amd_post_tree.c","src/qpSWIFT.c"],
 [("amd_l_order","src/amd_order.c"),("quotient-graph elimination","src/amd_2.c"),("fallback to identity","src/qpSWIFT.c:QP_SETUP")],
 [],["P, Info and status of amd_l_order"])

prop("C17","LDL' factorisation and triangular solves are correct for every pattern",
 "For every symmetric sparse matrix and every (or no) permutation, the symbolic phase returns the true elimination tree and column counts, and the numeric phase returns L (unit lower triangular, sorted, with exactly the predicted pattern) and D with L D L' = P M P' up to rounding whenever all pivots are nonzero; vanishing pivots are replaced by the documented signed regularisation so that D is never zero. The forward, diagonal, backward and permutation solves invert their operators, the cached and partial refactorisation variants give the same factors as a full one, and the validity checkers accept exactly valid permutations and matrices.",
 ["inputs"],"all symmetric patterns (also duplicates, unsorted columns, entries below the diagonal), all permutations, values and sizes",
 "Tests factor one small matrix per routine.",
 ["src/ldl.c","src/Auxilary.c"],
 [("LDL_symbolic, LDL_numeric","src/ldl.c"),("LDL_cache_numeric, LDL_row_cache_numeric, test_reach, Transpose_Row_Count","src/ldl.c, src/Auxilary.c"),("LDL_lsolve, dsolve, ltsolve, perm, permt","src/ldl.c"),("LDL_valid_perm, LDL_valid_matrix","src/ldl.c")],
 [],["output arrays of the LDL routines"])

prop("C18","Vector and sparse-matrix building blocks compute their definitions",
 "For all shapes, patterns and values (including empty rows and columns, zero-length vectors, negative and tied values) the public helpers compute their mathematical definition: transposition (exact, involutive), y -= Ax and y -= A'x with optional reset, dense to sparse conversion in both orders, objective, norm, inner product, min/max, scaled update, step length to the boundary, centrality ratio, complementarity right-hand sides, and diagonal updates. They write only their outputs.",
 ["inputs"],"all dimensions, patterns and values of the arguments of each helper",
 "The unit tests check each helper on one or two hand-made inputs.",
 ["src/Auxilary.c","include/Auxilary.h"],
 [("SparseMatrixTranspose, SparseMatrixMultiply, SparseMatrixTransMultiply, densetosparse(_ROWMAJOR)","src/Auxilary.c"),("updatevariables, innerproduct, norm, findminmax, findsteplength, checksign, formrho, form_ds, formlambda, obj_value","src/Auxilary.c")],
 [],["return values and output arguments of the helpers"])

prop("C19","Solving again after any history reports the truth",
 "After a solve, solving the same object again (after changing options or changing c, h, b in place, any number of times) continues from the current iterate and reports Optimal if and only if the current iterate satisfies the convergence test for the current data and options; an already optimal object returns Optimal at once with x, y, z, s unchanged, and a run cut short by the limit resumes so that the split run visits the same iterates as the uninterrupted one. The exit code never carries over from an earlier solve.",
 ["histories","configurations"],"all sequences of solve, option change and in-place data change on one object",
 "Tests solve each object once.",
 ["src/qpSWIFT.c"],
 [("iteration state kept in the object; flag decided after the loop","src/qpSWIFT.c:QP_SOLVE")],
 [("Flag, IterationCount, options->sigma","state that survives a solve","QP struct")],["return value and iterate of successive QP_SOLVE calls"])

prop("C20","The MATLAB and Simulink gateways validate and forward faithfully",
 "The MATLAB gateway accepts exactly calls with consistent sparse/real inputs and valid options, rejects all others with an error before any solve, and for accepted calls returns exactly the solution, exit flag, iteration count and multipliers the native solver computes for that data and options, leaving its inputs untouched. The Simulink blocks publish at every step the native solver's solution of the problem currently at their inputs, with no state carried between steps.",
 ["inputs","configurations","histories"],"all argument combinations and option values of the gateway; all input sequences of the block",
 "The C tests cannot build or run the gateways (they need MATLAB), so nothing exercises them at all.",
 ["matlab/qpSWIFT_mex.c","simulink/qpSWIFT_sfunc.c","simulink/qpSWIFT_sfunc_e.c"],
 [("mexFunction argument and option checks, result structures","matlab/qpSWIFT_mex.c"),("mdlOutputs","simulink/qpSWIFT_sfunc.c, simulink/qpSWIFT_sfunc_e.c")],
 [],["gateway outputs under a stand-in for the MATLAB API"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
