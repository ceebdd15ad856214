"""What each check runs, its bounds and its assumptions."""
import os
CONTROLLED = "the library objects are compiled from /repo's working tree with the project's own flags (prod) and again with address+undefined sanitizers (asan); FFTW, OpenBLAS, cJSON and libgomp are taken as installed"
SMALL = "behaviour beyond the enumerated sizes and value classes is inferred (the kernels branch on size classes that the bound crosses: SIMD remainders, block sizes, odd/even, 1-D/2-D)"
GEN = "vectors are enumerated basis vectors plus fixed generic vectors, so linear operators are decided on a basis"
CHECKS = {}


def add(pid, harness, variants=("prod", "asan"), level="model_checking", bounds=None, assumptions=(), **kw):
    b = dict(bounds or {"quick": ""})
    b.setdefault("thorough", b["quick"])
    CHECKS[pid] = dict(harness=harness, variants=list(variants), level=level, bounds=b,
                       assumptions=[CONTROLLED] + list(assumptions), **kw)


add("C01", "c01_dct", bounds={
    "quick": "every 1-D length 1..36 and 7 longer ones up to 128 x 4 ways to ask for it x mask families; every 2-D shape up to 7x7 and 8 elongated ones x 3 ways; every ordered list of distinct pixels for signals of up to 5 pixels; every subset for signals of up to 8; every operator on every basis vector and generic vectors",
    "thorough": "lengths 1..72 and up to 360, shapes up to 10x10 and up to 20x9/64x2, ordered lists up to 6 pixels, subsets up to 12 pixels"},
    assumptions=[GEN, SMALL, "FFTW plans are made with FFTW_ESTIMATE in most suites (speed); one suite uses the library's own flags"])
add("C02", "c02_dcttv", bounds={
    "quick": "every shape up to 6x6 x weight pairs (0 and 1e-14 to 1e7) x 2 DCT modes x analysis/synthesis x 3 masks; every subset of pixels up to 9; every ordered list of up to 2 pixels of 3x3; larger shapes against separable references",
    "thorough": "every shape up to 8x8 x all mask families, subsets of more shapes, ordered lists of up to 3 pixels"},
    assumptions=[GEN, SMALL, "in synthesis mode W is checked on its first m entries only (an existing test fixes p to the image size there)"])
add("C03", "c03_matrix", bounds={
    "quick": "every matrix over {-1,0,2} of 8 tiny sizes (up to 6 entries); every n x m of a set of row/column counts with three value families; basis and generic vectors; matrices to several hundred columns",
    "thorough": "a larger set of row/column counts"}, assumptions=[GEN, SMALL])
add("C04", "c04_history", bounds={
    "quick": "every operator-call sequence of length 3 over 10 operators x 3 inputs on every configuration; every sequence of 3 set-up/use/destroy cycles over all configurations and kinds with rejected set-ups and a complete solve in between; the same pairs and cycles on signals of up to several hundred pixels",
    "thorough": "operator sequences of length 4 and 4 set-up cycles"}, assumptions=[SMALL, "one transform set is live at a time, as the library's module-level state demands"])
add("C05", "c05_reject", bounds={
    "quick": "every combination of row/column/measurement counts from {-1,0,1,2,3,..}, every position of an out-of-range index, weights incl. negative and tiny negative, every kind of already live set; NESTA with every mismatch of lengths and every missing operator; l1qc_dct and the denoiser with every size combination; long pixel lists with one bad index at every position",
    "thorough": "as quick, with every live kind in every suite"}, assumptions=["null pointers and undersized buffers are outside the API contract"])
add("C06", "c06_faults", level="fault_enumeration", bounds={
    "quick": "every entry point (set-ups, solvers, loaders, allocators) x every allocation and every FFTW plan creation it makes x failing once or from then on x 4 call histories; all pairs of failing requests",
    "thorough": "as quick"},
    rule="one entry point x one failing request x once/sticky x call history; distinct = distinct (entry, history, fault point, mode) combinations in which the fault was delivered",
    assumptions=["faults are injected at the allocation and plan functions by link-time interposition on the library objects; failures inside third-party libraries are not injected"])
add("C07", "c07_kernels", bounds={
    "quick": "16 kernels x every length 0..~200 and larger ones up to 1048580 x scale factors; every position of every special value (0, -0, inf, nan, tiny, huge) at lengths 1..67; every pair of positions for the log-sums; every combination of 11 x 11 special values meeting in one element; exact guard bytes around every array, unaligned starts where allowed; inputs of size 1e-150 to 1e150",
    "thorough": "longer length lists, positions at lengths up to 130"}, assumptions=[SMALL, "zero scale times NaN/inf and the maximum of a vector with NaN are unspecified and excluded"])
add("C08", "c08_tv", bounds={
    "quick": "every shape from 2x2 to the bound x 6 operators x scale factors, every unit image, long thin shapes up to 66000, images to 1030x1030, images of very small and very large values", "thorough": "a larger square bound"}, assumptions=[GEN, SMALL])
add("C09", "c09_threads", variants=("o0", "o3"), build=dict(extra_src=("sched.cpp",), shim=True), bounds={
    "quick": "16 vector kernels x every length 0..42 and 9 longer; 10 image kernels x every shape 2..7 x 2..7 and 6 longer; every operator of 32 transform sets; barrier, NESTA, CG pieces; complete solves; x 17 (offered, provided) thread counts up to 64; the memory accesses of every thread are recorded, and where two threads touch the same location every interleaving within 1-3 preemptions is run for teams of up to 3",
    "thorough": "lengths 0..140, shapes to 12x12, larger conflict sets explored with 2-3 preemptions"},
    assumptions=["the objects are compiled with memory-access instrumentation at -O0 and -O3; the OpenMP runtime, memcpy/memset and level-1 BLAS calls are replaced by a controlled scheduler that runs the real outlined loop bodies as fibers; sequentially consistent memory",
                 "where no two threads touch a common location with a write, all interleavings are equivalent to the recorded one (partial-order argument); FFTW's own threads are trusted"])
add("C10", "c10_cg", bounds={
    "quick": "every integer SPD 2x2 matrix in the bound x 4 preconditioners x tolerances x starts x iteration limits; 6 matrix families of size 1..9 x 6 preconditioners (scaled by 1e6 and 1e-6 among them) x 5 starts x 3 right-hand sides x tolerances x every limit; the first iterates against a long-double trajectory; systems of up to 257 unknowns, and matrix-free ones of up to 70001; operators and right-hand sides in other units",
    "thorough": "larger integer range, sizes to 16"}, assumptions=["operators are symmetric positive definite; preconditioners are positive diagonals"])
add("C11", "c11_linesearch", bounds={
    "quick": "the environment (objective function) is a nondeterministic process with 7 answers per trial: every answer tree of depth 5, and every placement of up to two deviating answers in the 32 permitted trials, x parameter sets x both searches; 12 parameter sets with steps, slopes and values from 2^-990 to 2^80",
    "thorough": "answer trees of depth 8"}, assumptions=["answers within one rounding error of the acceptance line are only used where the arithmetic is exact"])
add("C12", "c12_l1qc", bounds={
    "quick": "every operator of a fixed list (sampled DCT 1-D/2-D, matrices, n=m included) x 3 data x 4 epsilons x 4 starts x 3 warm-start modes x options; iteration limits; infeasible starts; compared with an independent long-double interior-point solution; every Newton limit 0..9 against the one below it (iterations performed = reported) and the operator calls counted; larger signals and sampled images of up to 1122 pixels; the same problems in units 1e-12 to 1e3 and with accuracies to 1e-6",
    "thorough": "more operators"}, assumptions=[SMALL, "near-optimality is asserted within 1.25 times the requested gap (worst observed 0.74)", "epsilon > 0 and reachable"])
add("C13", "c13_barrier", bounds={
    "quick": "operators x 4 points x 3 bounds x 4 residual distances x 3 barrier parameters; every single bound violated in turn; 9 direction families x 4 scales x every coordinate for the step bound; every length 1..12 for the initialisation; six larger operators, and sampled identities of up to 4160 unknowns in closed form; everything in units 1e-12, 1e-7 and 1e8",
    "thorough": "lengths to 40, more operators"}, assumptions=[SMALL])
add("C14", "c14_l1qcdct", bounds={
    "quick": "every subset of pixels of the small shapes x modes x data x epsilons x measurement alignments; larger shapes with mask families; option combinations; every invalid call; not-a-number and infinities at every position and unreachable epsilons (failure, image untouched); every sequence of calls over a menu incl. failing calls; larger images; data in units 1e-10 to 1e3",
    "thorough": "larger shapes and longer sequences"}, assumptions=[SMALL, "near-optimality within 1.25 times the requested gap"])
add("C15", "c15_nesta", bounds={
    "quick": "every operator of the problem list (DCT, DCT+TV analysis with zero and non-zero weights, orthonormal matrices) x data (sparse, dense, spike, zero) x 4 noise levels x smoothing x tolerance x continuation steps; compared with an independent long-double solution of the original and of the smoothed problem; larger DCT and DCT+TV problems (to 1155 pixels) judged by a dual certificate; data in units 1e-9 and 1e9",
    "thorough": "more operators"}, assumptions=[SMALL, "near-optimality is asserted within 1.05 mu p/2 (true) and 0.15 mu p/2 (smoothed) where the stopping tolerance is tight"])
add("C16", "c16_nestaparts", bounds={
    "quick": "operators x 4 smoothing values x 4 points x 4 gradients x 3 data x 5 noise levels; set-up over continuation counts, tolerances and missing operators; every sequence of objective values over a small alphabet for the stopping window, and lengths to 64; the same larger problems; units 1e-13 to 1e11; complete runs replayed against a long-double model of the iteration",
    "thorough": "more operators, longer sequences"}, assumptions=[SMALL])
add("C17", "c17_denoise", bounds={
    "quick": "every shape 2..5 x 2..5 x 6 images x mu x sweeps run to convergence against an independent minimiser; iterates 0..7 for every shape to 7x7; tolerances x limits; larger images (to 260x257) against a stencil reference; images in other units",
    "thorough": "shapes to 6x6 (limit) and 9x9 (iterates)"}, assumptions=[SMALL])
add("C18", "c18_breg", bounds={
    "quick": "shrink at every length 0..69 and mxpy at every length 0..129; sweeps, Hessian diagonal and right-hand side on every shape in the bound x mu/lambda pairs, unit and generic vectors, values and thresholds in other units",
    "thorough": "lengths to 299, larger shapes"}, assumptions=[GEN, SMALL])
PYINC = ["-isystem", "/usr/lib/python3/dist-packages/numpy/core/include", "-isystem", "/usr/include/python3.12"]


def c19_setup(B):
    import subprocess
    out = []
    for v in ("prod", "asan"):
        so = B.build_module("c19", v, [B.REPO + "/interfaces/python/l1cPy.c"], PYINC, "_l1cPy_module.so")
        e = ["env", "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0"]
        if v == "asan":
            lib = lambda n: subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
            e += ["LD_PRELOAD=" + lib("libasan.so") + " " + lib("libubsan.so"), "PYTHONMALLOC=malloc"]
        out.append((e + ["/usr/bin/python3", B.VERIF + "/harness/c19_python.py", so], v, []))
    return out


add("C19", "c19_python", setup=c19_setup, bounds={
    "quick": "every pair of options x values x positional/keyword; every shape and mask of a list x 13 forms of b x 12 forms of pix_idx; 13 image forms; ~100 kinds of invalid call; every sequence of 3 calls over a menu of 9; calls in which each default value decides the outcome; every library allocation failing in turn; traced memory of repeated calls",
    "thorough": "every shape to 6x6, sequences of 4 calls"},
    assumptions=["the real extension module runs in the real interpreter; FFTW plans are made with FFTW_ESTIMATE so that both sides use the same plan", "int64/uint32/float64 pixel indices may be rejected or converted", "DCT+TV synthesis (which the C solver refuses) must be reported by status or exception"])
def c20_setup(B):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(B.build_harness, "c20_mex", v, extra_src=("bindref.c",), more=B.mex_objects) for v in ("prod", "asan")]
        ref = ex.submit(B.build_module, "c20ref", "prod", [], [], "ref.so")
        ms = [ex.submit(B.build_module, "c20" + f, "prod", B.mex_sources(f), B.MEXINC + ["-I" + B.REPO + "/interfaces/mex"], f + ".mex") for f in B.MEXFUNS]
        out = [([f.result()], v, []) for f, v in zip(fs, ("prod", "asan"))]
        dirs = ":".join(os.path.dirname(m.result()) for m in ms)
        out.append((["env", "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "/usr/bin/python3", B.VERIF + "/harness/c20_octave.py", ref.result(), B.REPO + "/interfaces/mex", dirs], "octave", []))
    return out


add("C20", "c20_mex", setup=c20_setup, bounds={
    "quick": "stand-in of the array interface: every pair of options x values x outputs; shapes x pixel orders x orientations x field orders x modes x weights; every denoising shape 3..7 x 3..7 x options; every argument and every option field replaced by each of 16 kinds of invalid value, missing fields, argument and output counts, index and size values; every sequence of 3 calls over a menu of 10; every allocation and plan failing in turn. The same kinds of calls replayed inside the real Octave; every pair of shapes of the measurement and index arrays",
    "thorough": "every shape to 7x7, denoising to 10x10, sequences of 4 calls"},
    assumptions=["the stand-in is a model of Octave's array interface; the octave_* suites replay the same kinds of calls with the real interpreter, the real option builders and the real error mechanism", "l1qc_dct and nesta_dctTV exchange flat vectors in the C library's pixel order, the denoiser a column-major image", "values of dct_mode other than 1 and 2, non-integer indices, and as many measurements as pixels are unspecified (no crash, no leak)"])
add("C21", "c21_json", bounds={
    "quick": "every token string of length 0..5 over a JSON token alphabet as a file; file sizes around block boundaries; missing/unreadable/directory/empty paths; every document of up to 3 fields over names x types; array lengths 0..300 and on to 15000",
    "thorough": "token strings of length 6, longer arrays"}, assumptions=["trailing text after the first JSON value and arrays of mixed types are unspecified; a reference recogniser decides well-formedness"])
add("C22", "c22_logging", bounds={
    "quick": "every sequence of printer replacements to the depth bound; every solver entry x problem x verbosity {0,1,2,3,7} x CG verbosity {0,1,4} x printer; the printer replaced at every k-th print call of a solve; file descriptors 1 and 2 captured",
    "thorough": "deeper sequences"}, assumptions=[SMALL])
add("C23", "c23_memory", bounds={
    "quick": "every size 0..699, every shape to 13x35, both junk patterns; every allocate/free history of the depth bound over all allocators; large arrays",
    "thorough": "sizes to 2999, shapes to 39x59, deeper histories"}, assumptions=["int overflow of sizes is excluded"])
add("C24", "c24_solverhist", bounds={
    "quick": "every sequence of 3 solver calls over a menu of 21 (NESTA, log-barrier, DCT reconstruction, denoiser, both conjugate gradient solvers, with rejected and infeasible calls among them), each answer compared with the one a fresh process gives; every pair of calls with the first failing at each of its allocations and plan creations, once and from then on; every pair of calls over 16 larger problems and three small ones",
    "thorough": "sequences of 4 calls, of 3 for the larger problems"},
    assumptions=["the reference is the same call made first in a forked process; FFTW plans are made with FFTW_ESTIMATE so that both sides use the same plan"])
add("C25", "c25_bounded", bounds={
    "quick": "every solver x every position of every special value (not-a-number, infinities, huge, tiny, denormal, zero; also all entries) in the data, start or preconditioner x tolerances (ordinary, zero, negative) x iteration limits (0 included) x noise levels; conjugate gradients also on singular, indefinite, huge and not-a-number operators; every operator application is counted against the permitted number, and an ordinary call follows",
    "thorough": "all combinations with the full iteration limits"},
    assumptions=["the numbers returned for data that are not finite are unspecified; barrier factor > 1, barrier tolerance > 0, at least one continuation step"])
