# C19: the real Python extension module, every argument form and option, against the C solvers.
import ctypes as ct, gc, os, sys, tempfile, importlib.util, tracemalloc
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SO = sys.argv[1]
import mcpy
from mcpy import explore, G
import numpy as np
sys.argv[1:2] = []
mcpy.init(sys.argv[1:])
spec = importlib.util.spec_from_file_location("_l1cPy_module", SO)
L = importlib.util.module_from_spec(spec); spec.loader.exec_module(L)
C = ct.CDLL(SO)
for f in ("wrap_live", "wrap_live_plans", "wrap_requests", "wrap_injected"):
    getattr(C, f).restype = ct.c_long
C.wrap_error.restype = ct.c_char_p
C.wrap_arm.argtypes = [ct.c_long, ct.c_int]
DCT1, DCT2, ANA, SYN = (C.ref_mode(k) for k in range(4))
D = ct.POINTER(ct.c_double); I = ct.POINTER(ct.c_int)
dp = lambda a: a.ctypes.data_as(D)
ip = lambda a: a.ctypes.data_as(I)


def gen(n, salt, lo=-6, hi=7):
    r = np.random.RandomState(salt)      # fixed stream: the same vector on every run
    v = r.randint(lo, hi, size=n).astype(float)
    v[v == 0] = 1
    return v


# ---------- the C solvers ----------
LQ = dict(epsilon=.01, mu=10., lbtol=1e-3, newton_tol=1e-3, newton_max_iter=50, verbose=0, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, dct_mode=DCT1)
NE = dict(alpha_v=0., alpha_h=0., sigma=0.01, mu=1e-5, tol=1e-5, n_continue=5, verbose=5, dct_mode=DCT1, bp_mode=ANA)
BR = dict(mu=10., tol=0.001, max_iter=1000, max_jac_iter=1)


def ref_l1qc(r, k, b, pix, o):
    o = {**LQ, **o}
    x = np.zeros(max(1, r * k)); s = np.zeros(4); b = np.array(b, float); p = np.array(pix, np.int32)
    d = np.array([o["epsilon"], o["mu"], o["lbtol"], o["newton_tol"], o["l1_tol"], o["cgtol"], 0.0])
    i = np.array([o["newton_max_iter"], o["verbose"], o["cgmaxiter"], o["dct_mode"], 0, 0], np.int32)
    st = C.ref_l1qc(r, k, len(b), dp(b), ip(p), dp(d), ip(i), dp(x), dp(s))
    return st, x.reshape(r, k) if st == 0 else x, s


def ref_nesta(r, k, b, pix, o):
    o = {**NE, **o}
    f = np.zeros(max(1, r * k)); su = ct.c_int(0); b = np.array(b, float); p = np.array(pix, np.int32)
    d = np.array([o["alpha_v"], o["alpha_h"], o["sigma"], o["mu"], o["tol"]])
    i = np.array([o["n_continue"], o["verbose"], o["dct_mode"], o["bp_mode"]], np.int32)
    st = C.ref_nesta(r, k, len(b), dp(b), ip(p), dp(d), ip(i), dp(f), ct.byref(su))
    return st, su.value, f.reshape(r, k)


def ref_breg(f, o):
    o = {**BR, **o}
    f = np.array(f, float, order="C"); u = np.zeros_like(f)
    C.ref_breg.argtypes = [ct.c_int, ct.c_int, D, ct.c_double, ct.c_double, ct.c_int, ct.c_int, D]
    st = C.ref_breg(f.shape[0], f.shape[1], dp(f), o["mu"], o["tol"], o["max_iter"], o["max_jac_iter"], dp(u))
    return st, u


class Capture:
    """what the call prints on file descriptor 1"""
    def __enter__(self):
        C.ref_fflush(); self.f = tempfile.TemporaryFile(); self.o = os.dup(1); os.dup2(self.f.fileno(), 1); return self

    def __exit__(self, *a):
        C.ref_fflush(); os.dup2(self.o, 1); os.close(self.o); self.f.seek(0); self.text = self.f.read().decode(errors="replace"); self.f.close()


def call(c, fn, *a, **kw):
    """-> (result or None, exception or None); leak and consistency monitors around the call"""
    C.wrap_reset()
    lv, pl = C.wrap_live(), C.wrap_live_plans()
    c.step()
    r = e = None
    with Capture() as cap:
        try:
            r = fn(*a, **kw)
        except Exception as x:
            e = x
    call.text = cap.text
    if isinstance(e, SystemError):
        c.fail("the module broke the calling convention: %s" % e)
    er = C.wrap_error()
    if er:
        c.fail("memory error: %s" % er.decode())
    if C.wrap_live() != lv or C.wrap_live_plans() != pl:
        c.fail("%d blocks and %d transform plans are still held after the call (%s)" % (C.wrap_live() - lv, C.wrap_live_plans() - pl, "it raised " + repr(e) if e else "it succeeded"))
    if e is not None:
        e.__traceback__ = None
    return r, e


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if b.size else 0
    return bool(np.all(np.abs(a - b) <= tol * (s + 1e-12)))


def vecforms(v):
    n = len(v); v = np.array(v, float)
    st = np.full(2 * n, 77.0); st[::2] = v
    rv = v[::-1].copy()[::-1]
    un = np.zeros(8 * n + 1, np.uint8); un[1:] = np.frombuffer(v.tobytes(), np.uint8)
    ro = v.copy(); ro.setflags(write=False)
    m2 = np.full((n, 3), 55.0); m2[:, 1] = v
    return [("float64", v.copy()), ("strided", st[::2]), ("reversed view", rv), ("unaligned", un[1:].view(np.float64)), ("read-only", ro), ("column of a matrix", m2[:, 1]),
            ("float32", v.astype(np.float32)), ("int32", v.astype(np.int32)), ("int64", v.astype(np.int64)), ("big-endian", v.astype(">f8")), ("list", [float(t) for t in v]), ("tuple of ints", tuple(int(t) for t in v)), ("float16", v.astype(np.float16))]


def pixforms(p):
    p = np.array(p, np.int32); n = len(p)
    st = np.full(3 * n, 1, np.int32); st[::3] = p
    ro = p.copy(); ro.setflags(write=False)
    un = np.zeros(4 * n + 1, np.uint8); un[1:] = np.frombuffer(p.tobytes(), np.uint8)
    return [("int32", p.copy(), True), ("strided", st[::3], True), ("reversed view", p[::-1].copy()[::-1], True), ("unaligned", un[1:].view(np.int32), True), ("read-only", ro, True),
            ("int16", p.astype(np.int16), True), ("uint8", p.astype(np.uint8), True), ("big-endian", p.astype(">i4"), True), ("list", [int(t) for t in p], True),
            ("int64", p.astype(np.int64), False), ("float64", p.astype(float), False), ("uint32", p.astype(np.uint32), False)]


def imgforms(f):
    f = np.array(f, float); n, m = f.shape
    big = np.full((2 * n, 3 * m), 9.0); big[::2, ::3] = f
    ro = f.copy(); ro.setflags(write=False)
    un = np.zeros(8 * n * m + 1, np.uint8); un[1:] = np.frombuffer(f.tobytes(), np.uint8)
    return [("C order", f.copy()), ("Fortran order", np.asfortranarray(f)), ("transposed view", f.T.copy().T), ("strided", big[::2, ::3]), ("flipped view", f[::-1, ::-1].copy()[::-1, ::-1]), ("read-only", ro),
            ("unaligned", un[1:].view(np.float64).reshape(n, m)), ("float32", f.astype(np.float32)), ("int32", f.astype(np.int32)), ("int64 Fortran", np.asfortranarray(f.astype(np.int64))), ("big-endian", f.astype(">f8")), ("nested lists", [[float(t) for t in r] for r in f]), ("matrix", np.matrix(f))]


def snap(x):
    return x.tobytes() if isinstance(x, np.ndarray) else repr(x)


def unchanged(c, before, objs):
    for b, o in zip(before, objs):
        if b != snap(o):
            c.fail("the call modified one of its inputs")


def fresh_array(c, a, shape):
    if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.shape != shape:
        c.fail("returned %s, expected a float64 array of shape %s" % (type(a) if not isinstance(a, np.ndarray) else (a.dtype, a.shape), shape))
    if not a.flags.writeable:
        c.fail("the returned array is not writable")


# ---------- judging one call ----------
def judge_l1qc(c, r, k, b, pix, o, bo, po, must=True, pos=0, kwn=None):
    st, x, s = ref_l1qc(r, k, b, pix, o)
    with Capture() as rc:
        ref_l1qc(r, k, b, pix, o)
    before = [snap(bo), snap(po)]
    names = list(LQ); pa = [o.get(q, LQ[q]) for q in names[:pos]]; kw = {q: v for q, v in o.items() if q not in names[:pos]}
    out, e = call(c, L.l1qc_dct, r, k, bo, po, *pa, **kw)
    text = call.text
    unchanged(c, before, [bo, po])
    c.check()
    if e is not None:
        if must and st == 0:
            c.fail("a valid call raised %r" % e)
        c.outcome("raise", type(e).__name__); return
    if st:
        c.fail("the C solver fails with status %d, the Python call returned a result" % st)
    if sys.getrefcount(out) != 2 or not isinstance(out, tuple) or len(out) != 2:
        c.fail("expected a fresh (image, info) pair")
    x2, info = out
    fresh_array(c, x2, (r, k))
    del out
    if sys.getrefcount(x2) != 2 or sys.getrefcount(info) != 2:
        c.fail("the module keeps %d references to the returned array and %d to the returned info" % (sys.getrefcount(x2) - 2, sys.getrefcount(info) - 2))
    if not close(x2, x):
        c.fail("the image differs from the C result:\n%s\nexpected\n%s" % (x2, x))
    want = dict(l1=s[0], total_newton_iter=s[1], total_cg_iter=s[2], status=s[3])
    if set(info) != set(want):
        c.fail("info has fields %s" % sorted(info))
    for q, v in want.items():
        slack = 1e-6 * abs(v) if q == "l1" else 0 if q == "status" else max(2, 0.1 * v)
        if not abs(info[q] - v) <= slack:
            c.fail("info[%s] = %r, the C solver reports %r" % (q, info[q], v))
    lines(c, text, rc.text)
    c.state(r, k, tuple(np.round(x2.ravel(), 5)), o.get("dct_mode"), len(text) > 0)
    c.outcome("ok", sorted(o))


def lines(c, got, want):
    a, b = got.count("\n"), want.count("\n")
    if (a == 0) != (b == 0) or abs(a - b) > max(2, 0.15 * b):
        c.fail("the call printed %d lines, the C solver with the same verbosity prints %d" % (a, b))


def judge_nesta(c, r, k, b, pix, o, bo, po, must=True, pos=0):
    with Capture() as rc:
        st, su, f = ref_nesta(r, k, b, pix, o)
    before = [snap(bo), snap(po)]
    names = list(NE); pa = [o.get(q, NE[q]) for q in names[:pos]]; kw = {q: v for q, v in o.items() if q not in names[:pos]}
    out, e = call(c, L.nesta_dctTV, r, k, bo, po, *pa, **kw)
    text = call.text
    unchanged(c, before, [bo, po])
    c.check()
    if e is not None:
        if must and st == 0:
            c.fail("a valid call raised %r" % e)
        c.outcome("raise", type(e).__name__); return
    if su:
        c.fail("the C set-up fails with status %d, the Python call returned a result" % su)
    if not isinstance(out, tuple) or len(out) != 2:
        c.fail("expected an (image, status) pair")
    x2, s2 = out
    del out
    if (s2 != 0) != (st != 0):
        c.fail("status %r, the C solver returns %d" % (s2, st))
    fresh_array(c, x2, (r, k))
    if sys.getrefcount(x2) != 2:
        c.fail("the module keeps %d references to the returned array" % (sys.getrefcount(x2) - 2))
    if st == 0 and not close(x2, f, 1e-5):
        c.fail("the image differs from the C result:\n%s\nexpected\n%s" % (x2, f))
    lines(c, text, rc.text)
    c.state(r, k, tuple(np.round(x2.ravel(), 4)), sorted(o))
    c.outcome("ok", sorted(o), st)


def judge_breg(c, f, o, fo, pos=0):
    st, u = ref_breg(f, o)
    before = [snap(fo)]
    names = list(BR); pa = [o.get(q, BR[q]) for q in names[:pos]]; kw = {q: v for q, v in o.items() if q not in names[:pos]}
    out, e = call(c, L.breg_anistropic_TV, fo, *pa, **kw)
    unchanged(c, before, [fo])
    c.check()
    if e is not None:
        c.fail("a valid call raised %r" % e)
    fresh_array(c, out, np.shape(f))
    if sys.getrefcount(out) != 2:
        c.fail("the module keeps %d references to the returned array" % (sys.getrefcount(out) - 2))
    if not close(out, u, 1e-9):
        c.fail("the image differs from the C result:\n%s\nexpected\n%s" % (out, u))
    c.state(tuple(np.round(out.ravel(), 6)), np.shape(f))
    c.outcome(sorted(o))


# ---------- problems ----------
SH = [(2, 3), (3, 2), (4, 1), (1, 5), (3, 3), (4, 3), (5, 5), (6, 1), (2, 7)]
if G.thorough:
    SH += [(r, k) for r in range(1, 7) for k in range(1, 7) if (r, k) not in SH and r * k > 1]


def masks(m):
    r = np.random.RandomState(m)
    full = list(range(m))
    sh = list(r.permutation(m))
    out = [full[::2], sh[:max(1, m // 2)], full[::-1][:max(1, (2 * m) // 3)], [m - 1], sh]
    return [[int(t) for t in x] for x in out]


def problem(r, k, mi):
    p = masks(r * k)[mi]
    return p, gen(r * k, 10 * r + k)[p]


LQV = dict(epsilon=[.5, 1e-3], mu=[3., 40.], lbtol=[1e-1, 1e-5], newton_tol=[.5, 1e-8], newton_max_iter=[1, 3], verbose=[1, 2], l1_tol=[.5, 0.], cgtol=[.4, 1e-3], cgmaxiter=[1, 2], dct_mode=[DCT1, DCT2])
NEV = dict(alpha_v=[.7, 3.], alpha_h=[.4, 2.], sigma=[.5, 2.], mu=[1e-2, .3], tol=[1e-1, 1e-3], n_continue=[1, 3], verbose=[0, 1], dct_mode=[DCT1, DCT2], bp_mode=[ANA, SYN])
BRV = dict(mu=[.5, 2.], tol=[.3, 1e-6], max_iter=[1, 3], max_jac_iter=[2, 4])


def choose_opts(c, V, base=None):
    """none, one or two options off their defaults, with every listed value"""
    names = list(V)
    prs = [()] + [(a,) for a in names] + [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    o = dict(base or {})
    for q in c.pick(prs):
        o[q] = c.pick(V[q])
    return o


# every form of one argument with every form of the other (thorough), or with its plain form
FORMS = [(i, j) for i in range(13) for j in range(12) if G.thorough or i == 0 or j == 0 or i == j]


def s_l1qc_options(c):
    r, k = c.pick([(3, 4), (5, 2)]); mi = c.choose(2)
    o = choose_opts(c, LQV); pos = c.pick([0, 2, len(LQ)])
    p, b = problem(r, k, mi)
    c.begin("l1qc_dct %dx%d mask %s options %s, %d given by position" % (r, k, p, o, pos))
    judge_l1qc(c, r, k, b, p, o, np.array(b), np.array(p, np.int32), pos=pos)


def s_l1qc_forms(c):
    r, k = c.pick(SH); mi = c.choose(5); bi, pi = c.pick(FORMS); dm = c.pick([DCT1, DCT2])
    p, b = problem(r, k, mi)
    bf, pf = vecforms(b)[bi], pixforms(p)[pi]
    c.begin("l1qc_dct %dx%d mask %s b as %s, pix_idx as %s, dct_mode %d" % (r, k, p, bf[0], pf[0], dm))
    judge_l1qc(c, r, k, b, p, dict(dct_mode=dm), bf[1], pf[1], must=pf[2])


def s_nesta_options(c):
    r, k = c.pick([(3, 4), (5, 2)]); mi = c.choose(2)
    o = choose_opts(c, NEV); pos = c.pick([0, 2, len(NE)])
    p, b = problem(r, k, mi)
    o.setdefault("mu", 1e-2); o.setdefault("tol", 1e-4)
    c.begin("nesta_dctTV %dx%d mask %s options %s, %d given by position" % (r, k, p, o, pos))
    judge_nesta(c, r, k, b, p, o, np.array(b), np.array(p, np.int32), pos=pos)


# the default of every option where it decides the outcome
DEF_L = [{}, dict(cgtol=1e-35), dict(cgtol=1e-35, newton_max_iter=2), dict(newton_tol=0.), dict(newton_tol=0., cgtol=1e-35), dict(l1_tol=0.), dict(cgmaxiter=1000), dict(newton_max_iter=500), dict(epsilon=1e-6), dict(lbtol=1e-8), dict(mu=1.5), dict(newton_tol=0., l1_tol=0., mu=1e6)]
DEF_N = [dict(verbose=0), dict(verbose=0, mu=1e-3), dict(verbose=0, tol=1e-3), dict(verbose=0, n_continue=2), dict(verbose=0, sigma=1.), dict(verbose=0, alpha_v=1., alpha_h=1., mu=1e-2), dict(), dict(verbose=0, bp_mode=SYN)]
DEF_B = [{}, dict(tol=0.), dict(tol=0., mu=1e-3), dict(tol=0., mu=1e-2, max_jac_iter=2), dict(max_iter=5000), dict(mu=1e-3), dict(mu=.1)]


def s_defaults(c):
    w = c.choose(3); o = dict(c.pick([DEF_L, DEF_N, DEF_B][w]))
    if w < 2:
        r, k = c.pick([(40, 1)] if len(o) == 3 and w == 0 else [(6, 7), (12, 5), (40, 1)] if w == 0 else [(4, 5), (6, 6)]); p, b = problem(r, k, c.choose(2))
        c.begin("%s %dx%d %d pixels, all defaults but %s" % (["l1qc_dct", "nesta_dctTV"][w], r, k, len(p), o))
        (judge_l1qc, judge_nesta)[w](c, r, k, b, p, o, np.array(b), np.array(p, np.int32))
    else:
        n, m = c.pick([(5, 8), (60, 3), (12, 12)]); f = gen(n * m, 3 * n + m).reshape(n, m)
        c.begin("breg_anistropic_TV %dx%d, all defaults but %s" % (n, m, o))
        judge_breg(c, f, o, f.copy())


def s_nesta_forms(c):
    r, k = c.pick([s for s in SH if s[0] > 2 and s[1] > 2] + [(3, 5), (4, 4)]); mi = c.choose(5); bi, pi = c.pick(FORMS)
    bp = c.pick([ANA, SYN]); al = c.pick([0., .6])
    p, b = problem(r, k, mi)
    bf, pf = vecforms(b)[bi], pixforms(p)[pi]
    c.begin("nesta_dctTV %dx%d mask %s b as %s, pix_idx as %s, bp_mode %d, weights %g" % (r, k, p, bf[0], pf[0], bp, al))
    judge_nesta(c, r, k, b, p, dict(bp_mode=bp, alpha_v=al, alpha_h=al / 2, mu=1e-2, tol=1e-3, verbose=0, n_continue=2), bf[1], pf[1], must=pf[2])


def s_breg(c):
    n = 3 + c.choose(4 if G.thorough else 3); m = 3 + c.choose(4); fi = c.choose(13); pos = c.pick([0, 1, 4])
    o = choose_opts(c, BRV) if fi in (0, 1) else {}
    f = gen(n * m, 3 * n + m).reshape(n, m)
    nm, fo = imgforms(f)[fi]
    c.begin("breg_anistropic_TV %dx%d given as %s options %s, %d given by position" % (n, m, nm, o, pos))
    judge_breg(c, f, o, fo, pos)


OK_B, OK_P = np.array([1., 2., 3.]), np.array([0, 3, 5], np.int32)
INVALID = [("no arguments", ()), ("one argument", (2,)), ("two", (2, 3)), ("three", (2, 3, OK_B)), ("string size", ("2", 3, OK_B, OK_P)), ("float size", (2.5, 3, OK_B, OK_P)), ("None size", (None, 3, OK_B, OK_P)), ("float column count", (2, 3.0, OK_B, OK_P)),
           ("b None", (2, 3, None, OK_P)), ("b string", (2, 3, "abc", OK_P)), ("b dict", (2, 3, {}, OK_P)), ("b 0-d", (2, 3, np.float64(3), OK_P)), ("b 2-d", (2, 3, OK_B.reshape(3, 1), OK_P)), ("b row", (2, 3, OK_B.reshape(1, 3), OK_P)), ("b complex", (2, 3, OK_B * 1j, OK_P)), ("b ragged", (2, 3, [[1], [2, 3]], OK_P)),
           ("pix None", (2, 3, OK_B, None)), ("pix string", (2, 3, OK_B, "012")), ("pix 2-d", (2, 3, OK_B, OK_P.reshape(3, 1))), ("pix row", (2, 3, OK_B, OK_P.reshape(1, 3))), ("pix 0-d", (2, 3, OK_B, np.int32(1))), ("pix short", (2, 3, OK_B, OK_P[:2])), ("pix long", (2, 3, OK_B, np.array([0, 1, 2, 3], np.int32))), ("pix empty", (2, 3, OK_B, OK_P[:0])),
           ("both empty", (2, 3, OK_B[:0], OK_P[:0])), ("b empty", (2, 3, OK_B[:0], OK_P)), ("more data than pixels", (1, 2, OK_B, OK_P)), ("more data than pixels 2", (2, 1, np.ones(3), np.array([0, 1, 1], np.int32))),
           ("zero rows", (0, 3, OK_B, OK_P)), ("zero columns", (2, 0, OK_B, OK_P)), ("negative rows", (-2, 3, OK_B, OK_P)), ("negative columns", (2, -3, OK_B, OK_P)), ("both negative", (-2, -3, OK_B, OK_P)), ("both zero", (0, 0, OK_B[:0], OK_P[:0])), ("zero size with empty data", (0, 3, OK_B[:0], OK_P[:0])),
           ("huge size", (2 ** 40, 3, OK_B, OK_P)), ("five positional of the wrong type", (2, 3, OK_B, OK_P, "x"))]
INVALID += [("fractional pixels", (2, 3, OK_B, np.array([0., 3.5, 5.]))), ("fractional pixels, float32", (2, 3, OK_B, np.array([.25, 3, 5], np.float32))), ("pixel nan", (2, 3, OK_B, np.array([0., np.nan, 5.]))), ("complex pixels", (2, 3, OK_B, OK_P * (1 + 1j))),
            ("pixel beyond 2^32", (2, 3, OK_B, np.array([0, 2 ** 32 + 3, 5]))), ("pixel beyond -2^32", (2, 3, OK_B, np.array([0, -2 ** 32 + 3, 5]))), ("pixel 2^31", (2, 3, OK_B, np.array([0, 3, 2 ** 31], np.uint32)))]
for j in range(3):
    for bad in (-1, 6, 7, -2 ** 31, 2 ** 31 - 1):
        q = OK_P.copy(); q[j] = bad
        INVALID.append(("index %d at %d" % (bad, j), (2, 3, OK_B, q)))
BADKW = [("unknown keyword", dict(foo=1)), ("dct_mode 0", dict(dct_mode=0)), ("dct_mode 3", dict(dct_mode=3)), ("dct_mode -1", dict(dct_mode=-1)), ("dct_mode string", dict(dct_mode="1")), ("verbose float", dict(verbose=1.5)), ("mu string", dict(mu="a")), ("mu None", dict(mu=None)), ("mu array", dict(mu=np.ones(3)))]
BADL = BADKW + [("epsilon string", dict(epsilon="a")), ("newton_max_iter float", dict(newton_max_iter=2.5)), ("cgmaxiter None", dict(cgmaxiter=None)), ("nesta keyword", dict(sigma=1.0))]
BADN = BADKW + [("bp_mode 0", dict(bp_mode=0)), ("bp_mode 3", dict(bp_mode=3)), ("bp_mode string", dict(bp_mode="analysis")), ("n_continue float", dict(n_continue=2.5)), ("l1qc keyword", dict(epsilon=1.0)), ("negative alpha_v", dict(alpha_v=-1.0)), ("negative alpha_h", dict(alpha_h=-1e-9))]


def arrs(a):
    return [x for x in a if isinstance(x, np.ndarray)]


def s_invalid(c):
    which = c.choose(2); fn = [L.l1qc_dct, L.nesta_dctTV][which]
    bk = [BADL, BADN][which]
    i = c.choose(len(INVALID) + len(bk))
    if i < len(INVALID):
        nm, a = INVALID[i]; kw = {}
    else:
        nm, kw = bk[i - len(INVALID)]; a = ((2, 3) if which == 0 else (3, 4)) + (OK_B, OK_P)
    c.begin("%s with %s" % (["l1qc_dct", "nesta_dctTV"][which], nm))
    before = [snap(x) for x in arrs(a)]; rc = [sys.getrefcount(x) for x in arrs(a)]
    for rep in range(2):
        out, e = call(c, fn, *a, **kw)
        c.check()
        if e is None:
            if which == 1 and isinstance(out, tuple) and out[1] != 0:
                c.outcome("status"); continue
            c.fail("invalid arguments were accepted: returned %r" % (out,))
        c.outcome(type(e).__name__)
        e = None
    unchanged(c, before, arrs(a))
    if rc != [sys.getrefcount(x) for x in arrs(a)]:
        c.fail("a rejected call changed the reference counts of its arguments by %s" % ([sys.getrefcount(x) - y for x, y in zip(arrs(a), rc)],))
    c.state(nm, which)


F33 = np.arange(12.).reshape(3, 4)
BADB = [("nothing", (), {}), ("scalar", (5,), {}), ("None", (None,), {}), ("string", ("abc",), {}), ("1-d", (np.arange(9.),), {}), ("3-d", (np.ones((3, 3, 3)),), {}), ("2x3", (np.ones((2, 3)),), {}), ("3x2", (np.ones((3, 2)),), {}), ("1x1", (np.ones((1, 1)),), {}), ("0x3", (np.ones((0, 3)),), {}), ("3x0", (np.ones((3, 0)),), {}), ("2x9", (np.ones((2, 9)),), {}), ("9x2", (np.ones((9, 2)),), {}),
        ("complex", (F33 * 1j,), {}), ("objects", (np.array([["a", "b", "c"]] * 3),), {}), ("ragged", ([[1, 2, 3], [1, 2], [1]],), {}), ("mu string", (F33,), dict(mu="a")), ("mu array", (F33, np.ones(3)), {}), ("tol None", (F33,), dict(tol=None)), ("max_iter float", (F33,), dict(max_iter=2.5)), ("max_iter array", (F33,), dict(max_iter=np.ones(3))), ("max_jac_iter string", (F33,), dict(max_jac_iter="1")), ("unknown keyword", (F33,), dict(lam=1)), ("too many", (F33, 1., 1., 1, 1, 1), {})]


def s_breg_invalid(c):
    nm, a, kw = c.pick(BADB)
    c.begin("breg_anistropic_TV with %s" % nm)
    before = [snap(x) for x in arrs(a)]; rc = [sys.getrefcount(x) for x in arrs(a)]
    for rep in range(2):
        out, e = call(c, L.breg_anistropic_TV, *a, **kw)
        c.check()
        if e is None:
            c.fail("invalid arguments were accepted: returned %r" % (out,))
        c.outcome(type(e).__name__); e = None
    unchanged(c, before, arrs(a))
    if rc != [sys.getrefcount(x) for x in arrs(a)]:
        c.fail("a rejected call changed the reference counts of its arguments")
    c.state(nm)


def menu():
    p1, b1 = problem(3, 4, 1); p2, b2 = problem(4, 3, 0); f = gen(12, 5).reshape(3, 4)
    i32 = lambda p: np.array(p, np.int32)
    M = [("l1qc dct1", lambda c: judge_l1qc(c, 3, 4, b1, p1, {}, np.array(b1), i32(p1))),
         ("l1qc dct2", lambda c: judge_l1qc(c, 4, 3, b2, p2, dict(dct_mode=DCT2), np.array(b2), i32(p2))),
         ("nesta analysis", lambda c: judge_nesta(c, 3, 4, b1, p1, dict(alpha_v=.5, mu=1e-2, tol=1e-3, verbose=0), np.array(b1), i32(p1))),
         ("nesta synthesis", lambda c: judge_nesta(c, 4, 3, b2, p2, dict(bp_mode=SYN, mu=1e-2, tol=1e-3, verbose=0, dct_mode=DCT2), np.array(b2), i32(p2))),
         ("nesta synthesis with TV", lambda c: judge_nesta(c, 4, 3, b2, p2, dict(bp_mode=SYN, alpha_h=.5, mu=1e-2, tol=1e-3, verbose=0), np.array(b2), i32(p2))),
         ("denoise", lambda c: judge_breg(c, f, {}, f.copy())),
         ("l1qc bad index", lambda c: bad(c, L.l1qc_dct, 3, 4, np.ones(2), np.array([0, 12], np.int32))),
         ("nesta bad index", lambda c: bad(c, L.nesta_dctTV, 3, 4, np.ones(2), np.array([-1, 2], np.int32))),
         ("denoise too small", lambda c: bad(c, L.breg_anistropic_TV, np.ones((2, 5))))]
    return M


def bad(c, fn, *a):
    out, e = call(c, fn, *a)
    if e is None:
        c.fail("invalid arguments were accepted")


MENU = menu()


def s_sequences(c):
    seq = [c.choose(len(MENU)) for _ in range(4 if G.thorough else 3)]
    c.begin("calls: " + ", ".join(MENU[i][0] for i in seq))
    for i in seq:
        MENU[i][1](c)
    c.state(seq)


def s_leaks(c):
    """traced Python memory of repeated calls does not grow"""
    kind = c.choose(3); form = c.choose(13); good = c.choose(2)
    p, b = problem(3, 4, 1); f = gen(12, 5).reshape(3, 4)
    c.begin("repeated calls, %s, argument form %d, %s" % (["l1qc_dct", "nesta_dctTV", "denoise"][kind], form, ["valid", "rejected"][good]))
    if kind == 2:
        a = (imgforms(f if good == 0 else f[:2])[form][1],); kw = {}; fn = L.breg_anistropic_TV
    else:
        pf = pixforms(p)[form % 9][1]      # (a cast numpy itself refuses leaves stale traces inside numpy)
        a = (3, 4, vecforms(b)[form][1] if good == 0 else vecforms(b[1:])[form][1], pf); fn = [L.l1qc_dct, L.nesta_dctTV][kind]
        kw = {} if kind == 0 else dict(mu=1e-2, tol=1e-3, verbose=0, n_continue=1)

    def once():
        try:
            fn(*a, **kw)
        except Exception:
            pass
    rc = [sys.getrefcount(x) for x in arrs(a)]
    for _ in range(3):
        once()
    tracemalloc.start()
    for _ in range(4):
        once()
    grow = []
    for w in range(3):               # a leak grows in every window; allocator noise does not
        gc.collect(); m0 = tracemalloc.get_traced_memory()[0]
        for _ in range(16):
            once()
        gc.collect(); grow.append(tracemalloc.get_traced_memory()[0] - m0)
    tracemalloc.stop()
    c.step(55); c.check()
    if min(grow) >= 16 * 16:
        c.fail("16 calls left %s bytes of Python memory behind, time after time" % grow)
    if rc != [sys.getrefcount(x) for x in arrs(a)]:
        c.fail("the calls changed the reference counts of their arguments")
    c.state(kind, form, good)


def s_faults(c):
    """every library allocation fails in turn"""
    kind = c.choose(4); st = c.choose(2); k = 1 + c.choose(40)
    p, b = problem(3, 4, 1); f = gen(12, 5).reshape(3, 4); pi = np.array(p, np.int32); b = np.array(b)
    c.begin("%s with allocation %d failing%s" % (["l1qc_dct", "nesta_dctTV", "nesta_dctTV synthesis", "denoise"][kind], k, " and all later ones" if st else ""))
    no = dict(mu=1e-2, tol=1e-3, verbose=0, n_continue=1)
    fn = [lambda: L.l1qc_dct(3, 4, b, pi), lambda: L.nesta_dctTV(3, 4, b, pi, **no), lambda: L.nesta_dctTV(3, 4, b, pi, bp_mode=SYN, **no), lambda: L.breg_anistropic_TV(f)][kind]
    if k == 1:
        pass
    C.wrap_reset()
    lv, pl = C.wrap_live(), C.wrap_live_plans()
    C.wrap_arm(k, st)
    e = out = None
    try:
        out = fn()
    except Exception as x:
        e = x; e.__traceback__ = None
    inj = C.wrap_injected()
    C.wrap_disarm()
    c.step(); c.check()
    if not inj:
        raise mcpy.Prune()
    if isinstance(e, SystemError):
        c.fail("the module broke the calling convention: %s" % e)
    er = C.wrap_error()
    if er:
        c.fail("memory error: %s" % er.decode())
    if e is None:
        ok = False
        if kind in (1, 2):
            ok = out[1] != 0 or close(out[0], ref_nesta(3, 4, b, p, dict(no, bp_mode=SYN if kind == 2 else ANA))[2], 1e-5)
        elif kind == 0:
            ok = close(out[0], ref_l1qc(3, 4, b, p, {})[1])
        else:
            ok = close(out, ref_breg(f, {})[1])
        if not ok:
            c.fail("the call reported success although memory ran out")
    if C.wrap_live() != lv or C.wrap_live_plans() != pl:
        c.fail("%d blocks and %d plans are still held" % (C.wrap_live() - lv, C.wrap_live_plans() - pl))
    # and the module still works
    MENU[[0, 2, 3, 5][kind]][1](c)
    c.state(kind, st, k); c.outcome(type(e).__name__)


for nm, fn in (("l1qc_options", s_l1qc_options), ("l1qc_forms", s_l1qc_forms), ("nesta_options", s_nesta_options), ("nesta_forms", s_nesta_forms), ("denoise", s_breg), ("defaults", s_defaults), ("invalid", s_invalid), ("denoise_invalid", s_breg_invalid), ("sequences", s_sequences), ("leaks", s_leaks), ("faults", s_faults)):
    explore(nm, fn)
mcpy.finish()
