#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Sampled DCT operators equal their documented matrices",
 "For every signal shape, DCT mode and list of distinct pixel indices (in any order), the operators handed out by the sampled-DCT set-up compute exactly what is documented, to floating-point accuracy: M is the orthonormal inverse cosine transform (1-D over the whole signal when either dimension is 1 or 1-D mode is requested, separable 2-D otherwise), R picks the listed pixels in the listed order, A = RM, the adjoints are the transposes, AtA is their product and W is the identity. The advertised sizes n, m, p, q and the norm bound are those of these matrices.",
 ["inputs","configurations"],"every (rows, cols), DCT mode, sampling pattern and order, and every input vector",
 "The unit tests need generated data that covers two or three sizes (and do not run here); odd, prime, 1-wide and non-square shapes and unsorted masks are never exercised.",
 ["src/dct1.c","src/dct2.c","src/dct_transforms.c"],[("1-D operators","src/dct1.c"),("2-D operators","src/dct2.c"),("dispatch","src/dct_transforms.c: l1c_setup_dct_transforms")])
p("C02","DCT+TV dictionary operators equal their documented block matrices",
 "For every image shape, pair of non-negative TV weights, DCT mode, problem mode and pixel list accepted by the DCT+TV set-up, the dictionary is the block matrix [inverse DCT, vertical weight times vertical difference, horizontal weight times horizontal difference] with the blocks of zero-weight terms left out, its companion operator is the transpose, and analysis/synthesis mode wire it (and the identity and the pixel sampling) into A, M, W and R as documented. The advertised sizes match the mode, the normal operator equals the product of forward and adjoint, and the advertised norm is never smaller than the true spectral norm of W.",
 ["inputs","configurations"],"every shape, weight pair (zero/non-zero in every combination), DCT mode, problem mode, pixel list and input vector",
 "The only test data is one shape per suite and the suite does not run here; the combinations of zero/non-zero weights with modes and non-square shapes are not covered.",
 ["src/dct_tv_transforms.c","src/TV.c"],[("block dictionary","src/dct_tv_transforms.c: Wv/Wtx"),("mode wiring","src/dct_tv_transforms.c: l1c_setup_dctTV_transforms")])
p("C03","Explicit-matrix operators compute A x, A^T y and A^T A x",
 "For every dense row-major n-by-m matrix with n and m positive (wide, square or tall), the operators from the explicit-matrix set-up compute A x, A^T y and A^T A x for every vector, sampling is A itself, the dictionary and sparsifying operators are identities on length-m vectors, and the sizes and the norm of the (identity) sparsifying operator are advertised truthfully. The matrix is used in place and never modified.",
 ["inputs"],"every n, m, matrix and vector",
 "One fixed wide matrix is tested; tall and square ones, m smaller than n, and the identity operators are not.",
 ["src/matrix_transforms.c"],[("dgemv wrappers","src/matrix_transforms.c")])
p("C04","Transform operators are pure and independent of call history",
 "Applying any operator of a transform set leaves its input vector (including the pixel list and matrix given at set-up) bit-for-bit unchanged, writes only the documented number of output elements, and returns a result that depends only on the current configuration and the current input. In particular no sequence of earlier operator calls, and no earlier set-up/destroy cycle with another shape, mask, mode or transform kind, changes what a later call returns.",
 ["histories","configurations"],"every sequence of set-up, operator and destroy calls with one live transform set at a time",
 "Tests run each operator once in a fresh process; stale scratch state left by a previous call or a previous configuration is invisible to them.",
 ["src/dct1.c","src/dct2.c","src/dct_tv_transforms.c","src/matrix_transforms.c"],[("file-global scratch buffers, plans and sizes","src/dct1.c, src/dct2.c, src/dct_tv_transforms.c, src/matrix_transforms.c")])
p("C05","Invalid configurations are rejected without side effects",
 "Every set-up or solver call whose sizes are not positive, whose pixel index lies outside the signal, whose TV weight is negative, that asks for TV on an image with two or fewer rows or columns, or (for NESTA) whose vector lengths do not match its transform set, returns the documented error code, while every valid combination is accepted. A rejected call allocates nothing that stays allocated, writes nothing through its output vectors, and leaves a transform set that was already live working as before.",
 ["inputs","configurations"],"every combination of size, index, weight and mode arguments around the validity boundaries",
 "Tests try a handful of bad arguments one at a time and only look at the return code.",
 ["src/dct_transforms.c","src/dct_tv_transforms.c","src/matrix_transforms.c","src/nesta.c","src/bregman.c","src/l1qc_dct.c"],[("argument validation","src/dct_transforms.c, src/dct_tv_transforms.c, src/matrix_transforms.c, src/nesta.c: l1c_nesta, src/l1qc_dct.c")])
p("C06","Out-of-memory and planner failures are reported cleanly at every point",
 "If any single memory request, every request from some point on, or any DCT plan creation fails inside a library call, the call returns a failure status (or a null pointer) instead of crashing, releases everything it had acquired exactly once, leaves the caller's inputs intact, and a failing solver does not write its output vector or image. The same call made afterwards, with memory available again, succeeds with the normal result.",
 ["fault_sequences"],"every allocation and plan-creation point of every public entry point, failing once or from then on, with and without earlier successful calls",
 "Tests never make an allocation fail.",
 ["src/l1c_memory.c","src/dct1.c","src/dct2.c","src/dct_tv_transforms.c","src/nesta.c","src/l1qc_newton.c","src/l1qc_dct.c","src/bregman.c","src/json_utils.c"],[("failure paths","goto fail/exit blocks of each set-up and solver function")])
p("C07","Vector kernels are exact for every length",
 "For every vector length from zero up, with any contents, each elementwise vector routine (scaled sums, products, fused multiply-add, fill, absolute value) and each reduction (sum, log-sum, 1-norm, 2-norm error, relative error, maximum) returns the mathematically defined result to rounding accuracy, including not-a-number from a log-sum whenever some argument is negative and minus infinity when one is zero. Each routine reads and writes only the elements it was given and modifies only its output.",
 ["inputs"],"every length (all remainders modulo the vector width, zero included), element position, scale factor and special value",
 "Tests use one or two fixed lengths, so tails, empty inputs and special values are not covered.",
 ["src/l1c_math.c","src/vcl/vcl_math.cpp"],[("OpenMP elementwise loops","src/l1c_math.c"),("vector body plus scalar tail","src/vcl/vcl_math.cpp")])
p("C08","Discrete gradient operators are the documented difference matrices",
 "For every image with at least two rows and two columns, the horizontal and vertical difference operators are the forward differences with zero in the last column or row, scaled by the given factor; the transposed operators are exactly their adjoints; and the second-difference operators equal the product of the two (with the factor squared). Only the output image is written.",
 ["inputs"],"every image shape from 2x2 up, scale factor (zero and negative included) and image",
 "One fixed image size is tested for each operator.",
 ["src/TV.c"],[("difference stencils","src/TV.c")])
p("C09","Results do not depend on thread count or thread schedule",
 "Every parallel loop of the library produces the same result, up to rounding of reductions, for every number of worker threads the runtime may provide (including fewer than requested and more than there are iterations) and for every interleaving of those threads. No two threads interfere through shared temporaries.",
 ["schedules","configurations"],"every team size and every interleaving of the threads of each parallel region, for every loop length",
 "Tests run with one fixed thread count and whatever schedule the machine happens to produce; a shared temporary usually gives the right answer by luck.",
 ["src/l1c_math.c","src/TV.c","src/bregman.c","src/l1qc_newton.c"],[("OpenMP parallel for regions with private clauses and reductions","src/l1c_math.c, src/TV.c, src/bregman.c, src/l1qc_newton.c")])
p("C10","Conjugate-gradient solvers never return a worse point and report truthfully",
 "For every symmetric positive definite operator, right-hand side, starting point, positive diagonal preconditioner, tolerance and iteration limit, both conjugate-gradient solvers return a point whose residual is no larger than that of the starting point, namely the one with the smallest residual among the start and the iterates of the (preconditioned) conjugate-gradient method, report the relative residual and iteration count of the solve truthfully, perform at most the allowed number of iterations, stop at the first iterate that meets the tolerance (whatever the scale of the preconditioner), and solve the system to the attainable accuracy within N iterations plus rounding allowance. The right-hand side and preconditioner are left unchanged and the contents of the work arrays on entry do not matter.",
 ["inputs"],"every SPD system, start, preconditioner, tolerance and iteration limit",
 "Tests solve one fixed well-conditioned system to convergence, so the iteration limit, warm starts, the best-iterate rule and the reported residual are not pinned.",
 ["src/cgsolve.c"],[("best-iterate bookkeeping","src/cgsolve.c: l1c_cgsolve, l1c_cgsolve_diag_precond")])
p("C11","Backtracking line searches accept exactly the first sufficient decrease",
 "For every sequence of objective values an objective function can return (including not-a-number and infinities), both line searches try the steps s, s*beta, s*beta^2, ... in order, accept exactly the first whose value meets the sufficient-decrease test, and then return the accepted point, its objective value, step and iteration number with status 0. If none of the permitted 32 trials is acceptable they return status 1 and leave the point and objective value as they were; directions are never modified.",
 ["inputs","histories"],"every sequence of objective answers up to the trial limit, every start step, shrink factor, slope and vector length",
 "Tests use one smooth objective that succeeds and one that fails; NaN/inf in the middle, equality with the threshold, and success on the last trial are not covered.",
 ["src/linesearch.c"],[("backtracking loops","src/linesearch.c: l1c_linesearch, l1c_linesearch_xu")])
p("C12","Log-barrier solver returns feasible, near-optimal, truthfully reported points",
 "Started from any strictly feasible point, the l1 solver with quadratic constraint returns status 0 and a point that still satisfies ||Ax-b|| <= epsilon and whose 1-norm is within the requested accuracy of the true minimum (the barrier tolerance times the barrier factor, or what an explicitly given number of barrier iterations reaches, as long as the inner iteration limits do not bind), for every operator with no more rows than columns, data vector, epsilon, warm-start mode and option set; the reported 1-norm is that of the returned point and the reported iteration counts are those performed and respect the limits. From an infeasible start it returns the infeasible-start status and leaves the point unchanged, and in no case does it modify the data vector.",
 ["inputs","configurations"],"every operator, measurement vector, feasible or infeasible start, epsilon and option combination (barrier factor, tolerances, iteration limits, warm-start mode, explicit barrier iteration count)",
 "The end-to-end solver test needs generated data and does not run here; optimality is not checked against an independent bound anywhere.",
 ["src/l1qc_newton.c"],[("barrier and Newton loops","src/l1qc_newton.c: l1c_l1qc_newton"),("feasible-start check","src/l1qc_newton.c: _l1c_l1qc_check_feasible_start")])
p("C13","Barrier function, derivatives, Newton direction and step bound are exact",
 "At every strictly feasible point the solver's barrier functional, its gradient and reduced Hessian products equal their closed forms, the computed direction solves the full Newton system to the linear-solver tolerance, and the initial bound variables strictly dominate |x| with the documented barrier parameter and iteration count (an explicitly given count being kept). The step bound is positive, never exceeds 0.99, never lets a bound or the residual constraint be violated, and is 0.99 times the smaller of 1 and the distance to the boundary; outside the feasible set the functional is not-a-number.",
 ["inputs"],"every problem size, operator, strictly feasible (and infeasible) point and barrier parameter",
 "These routines are tested only with generated data that is not available here, at a single point.",
 ["src/l1qc_newton.c"],[("functional, gradient, Hessian, direction, step","src/l1qc_newton.c: _l1c_l1qc_*")])
p("C14","DCT reconstruction returns a feasible, near-l1-minimal image",
 "For every signal shape, DCT mode, sampling pattern, measurement vector and epsilon, the DCT reconstruction entry point returns an image whose sampled pixels match the measurements within epsilon and whose DCT coefficients have near-minimal 1-norm, reporting that 1-norm; measurements need no particular alignment and neither they nor the pixel list are modified. When it fails it returns a non-zero status and leaves the output image untouched, and any sequence of calls gives the same answers as each call alone.",
 ["inputs","configurations","histories"],"every shape, mode, mask, data vector, option set and sequence of calls",
 "One 1-D reconstruction of one image is run by the bindings' tests, without checking optimality; 2-D mode, failures and repeated calls are not covered.",
 ["src/l1qc_dct.c","src/l1qc_newton.c","src/dct_transforms.c"],[("entry point","src/l1qc_dct.c: l1qc_dct")])
p("C15","NESTA returns feasible, near-optimal points in both problem modes",
 "For every transform set whose sampling rows are orthonormal (plain DCT in either mode, DCT+TV in analysis mode, explicit matrices), every non-negative weight pair, measurement vector, positive noise level and option set, NESTA returns status 0 with a finite point that satisfies ||Ax-b|| <= sigma to rounding and whose objective ||W^T x||_1 is within the smoothing and stopping accuracy of the true minimum. The starting content of the output vector does not matter, the data vector is not modified, and the size of the returned vector is that advertised by the transform set.",
 ["inputs","configurations"],"every shape, mode, weights, mask, data (zero included), sigma, mu, tolerance and number of continuation steps",
 "The test compares one problem with a stored MATLAB run at loose tolerance; TV weights, shapes and analysis/synthesis agreement with the optimum are unchecked.",
 ["src/nesta.c"],[("continuation and main loop","src/nesta.c: l1c_nesta")])
p("C16","NESTA projection, smoothed gradient, set-up and stopping window are exact",
 "For every point and gradient, the projection step returns the exact minimiser of the quadratic model over the residual ball, the smoothed objective and gradient equal the Huber-smoothed 1-norm of W^T x and its derivative, and the set-up starts smoothing at 0.9 times the largest entry of |W^T A^T b| with factors that reach the requested smoothing and tolerance in exactly the requested number of continuation steps. The running mean used for stopping is the mean of the last ten (or fewer) objective values for every sequence of values; every continuation step starts it afresh and ends at the first iteration whose objective is within the step's relative tolerance of it.",
 ["inputs","histories"],"every point, gradient, smoothing level, noise level and every sequence of pushed values",
 "Tests check one stored vector for each piece; the inactive-constraint branch, overcomplete dictionaries and window wrap-around histories are not covered exhaustively.",
 ["src/nesta.c"],[("projection, functional, set-up, circular buffer","src/nesta.c")])
p("C17","Split-Bregman denoising converges to the TV-regularised minimiser",
 "For every image of at least two rows and columns (square or not), every positive mu and every inner sweep count, running the anisotropic TV denoiser to convergence yields the unique minimiser of |Dx u|_1 + |Dy u|_1 + mu/2 ||u-f||^2; a constant image is returned unchanged, transposing the image transposes the limit, and f is never modified. With a finite tolerance it returns the first iterate whose relative change falls below it, and with an iteration limit k it returns the k-th iterate.",
 ["inputs"],"every image, shape, mu, tolerance, iteration limit and inner sweep count",
 "The end-to-end denoiser has no numerical test; only its building blocks are compared with one stored data set.",
 ["src/bregman.c"],[("split-Bregman loop","src/bregman.c: l1c_breg_anistropic_TV")])
p("C18","Split-Bregman building blocks are exact for every image shape",
 "For every image shape from 2x2 up, soft-thresholding, difference, right-hand-side assembly, the Gauss-Seidel and Jacobi sweeps and the inverse Hessian diagonal equal their definitions for the matrix mu*I + lambda*(Dx^T Dx + Dy^T Dy), at every pixel including all corners and edges. A vector that already solves the linear system is a fixed point of both sweeps, and inputs other than the designated output are unchanged.",
 ["inputs"],"every shape, pixel position, mu, lambda, threshold and vector contents",
 "One fixed shape is tested; two-wide images, where edge and corner rules meet, are not.",
 ["src/bregman.c"],[("shrink, rhs, Gauss-Seidel, Jacobi, diagonal","src/bregman.c")])
p("C19","Python bindings validate arguments and return what the C solvers return",
 "Every call of the three Python functions either raises an exception for arguments that violate the documented rules (types, dimensions, matching lengths, index range, mode values, minimum image size) or returns an array of the documented shape whose content equals the C solver's result for the same options, for every accepted dtype, memory layout and option keyword; inputs are never modified. Repeated calls, successful or failing, do not leak memory or references.",
 ["inputs","histories"],"every combination of argument types, layouts, shapes, option keywords and call sequences",
 "The Python tests check a few exceptions and one reconstruction each; option plumbing, layouts and leaks are not covered.",
 ["interfaces/python/l1cPy.c"],[("argument parsing and result building","interfaces/python/l1cPy.c")])
p("C20","Octave/MATLAB bindings validate arguments and return what the C solvers return",
 "Every call of the three MEX functions either raises an error for arguments that violate the documented rules (count, class, size, index range, option fields, mode string) or returns arrays of the documented size whose content equals the C solver's result for the same options: for l1qc_dct and nesta_dctTV the C result element by element in linear order for the given row and column counts and the 1-based pixel indices (any order, row or column vectors), for the denoiser the result for the column-major image, non-square images included. Nothing stays allocated after a call, successful or failing. Inputs in the caller's workspace are never modified.",
 ["inputs","histories"],"every combination of argument classes, shapes, option fields and call sequences",
 "The Octave tests check error identifiers and one square image; non-square images, option plumbing and failed solves are not covered.",
 ["interfaces/mex/l1c_mex_utils.c","interfaces/mex/l1qc_dct_mex.c","interfaces/mex/nesta_dctTV_mex.c","interfaces/mex/breg_anistropic_TV_mex.c"],[("argument checks and result building","interfaces/mex")])
p("C21","JSON data loading returns exactly the file's data or an error",
 "For every file content, loading either succeeds with the JSON document the file begins with or returns a non-zero status for a missing, unreadable, empty or malformed file (one that does not begin with a JSON value); for every loaded document, the extractors return exactly the named integer, real, integer array or real array (any length, zero included, order preserved) or a non-zero status when the name is absent or has another type. Nothing leaks and no file handle stays open on any path.",
 ["inputs","fault_sequences"],"every file content, field name, field type and array length",
 "No test targets the loader; it is only exercised with well-formed generated files.",
 ["src/json_utils.c"],[("loader and extractors","src/json_utils.c")])
p("C22","Progress output is controlled by verbosity and the installed printer",
 "All progress text of the solvers goes through the currently installed printer and nothing is written directly to standard output; with verbosity zero a solve that meets no numerical difficulty prints nothing at all, and with verbosity k>0 it reports. Neither verbosity nor the printer changes any numerical result, and replacing the printer returns the previously installed one for every sequence of replacements.",
 ["histories","configurations"],"every solver, verbosity level and sequence of printer replacements",
 "One test replaces the printer once; output of the solvers at verbosity zero is not looked at.",
 ["src/l1c_logging.c","src/nesta.c","src/l1qc_dct.c","src/cgsolve.c","src/l1qc_newton.c"],[("replaceable printer","src/l1c_logging.c")])
p("C23","Aligned allocators give aligned, disjoint, correctly sized arrays",
 "For every size and row/column count, the array allocators return storage aligned to the documented boundary, large enough for the requested elements, disjoint from all other live arrays, with every element zero for the zeroing variants, row by row for the two-dimensional ones; freeing (including of null pointers) in any order releases everything exactly once.",
 ["inputs","histories"],"every size, row/column count and sequence of allocate, fill and free operations",
 "Tests allocate one size of each kind once.",
 ["src/l1c_memory.c"],[("aligned allocation","src/l1c_memory.c")])
p("C24","A solver call's outcome depends only on its arguments",
 "For every sequence of solver calls in one process (NESTA, log-barrier, DCT reconstruction, total-variation denoiser, conjugate gradients; successful, rejected, infeasible and out-of-memory calls in any order, with the same or different sizes, pixels, data and options), each call returns the status, result and iteration counts it returns when it is the first call of a fresh process. No call leaves anything allocated or modifies its inputs.",
 ["histories","fault_sequences"],"every sequence of solver calls and every allocation failure inside an earlier call",
 "Each test program makes one solver call on one problem; nothing compares an answer after another call or a failure with the answer of a fresh process.",
 ["src/nesta.c","src/l1qc_newton.c","src/l1qc_dct.c","src/bregman.c","src/cgsolve.c","src/dct1.c","src/dct2.c","src/dct_tv_transforms.c","src/matrix_transforms.c"],[("solver entry points and the transforms' module state","src")])
p("C25","Every solver ends within its iteration limits whatever the data",
 "For every data vector, image, start and operator (entries that are not-a-number, infinite, huge, tiny, denormal or zero; singular or indefinite operators for conjugate gradients), every tolerance (zero and negative included) and every iteration limit (zero included), each solver returns after at most the work its limits permit: NESTA 10000 inner iterations per continuation step, the log-barrier solver its barrier times Newton times (CG limit plus 32 line-search trials), conjugate gradients its iteration limit, the denoiser its iteration and sweep limits. It reports no more iterations than permitted, releases everything, keeps its inputs, and does not affect later ordinary calls. The log-barrier solver and the DCT reconstruction never report data or a start with non-finite entries as solved, and conjugate gradients never return not-a-number from an ordinary start and finite data.",
 ["inputs","configurations"],"every position and kind of special value, tolerance and iteration limit",
 "Tests use well-scaled data only; a comparison that is false for not-a-number, or an exit test that never fires, shows up only there.",
 ["src/nesta.c","src/l1qc_newton.c","src/l1qc_dct.c","src/cgsolve.c","src/bregman.c"],[("iteration loops and exit tests","src")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
