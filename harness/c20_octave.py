# C20: the MEX functions inside the real Octave, with options built by the project's own l1qc_dct_opts/nesta_opts.
# Conformance companion of c20_mex.cpp: the same kinds of calls with the real array interface.
import ctypes as ct, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REF, MDIR, DIRS = sys.argv[1], sys.argv[2], sys.argv[3].split(":")
import mcpy
from mcpy import explore, G
sys.argv[1:4] = []
mcpy.init(sys.argv[1:])
C = ct.CDLL(REF)
DCT1, DCT2, ANA, SYN = (C.ref_mode(k) for k in range(4))
LQ = dict(epsilon=.1, mu=10, lbtol=1e-3, tau=0, lbiter=0, newton_tol=1e-3, newton_max_iter=50, verbose=2, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, warm_start_cg=0, dct_mode=1)
NE = dict(sigma=.01, mu=1e-5, tol=1e-3, alpha_v=0, alpha_h=0, verbose=5, n_continue=5, bp_mode="analysis", dct_mode=1)
PRE = """1;
warning('off','all');
function show_(v)
  if isstruct(v)
    f = fieldnames(v); printf('struct %d %d %d\\n', size(v,1), size(v,2), numel(f));
    for i=1:numel(f); printf('@%s\\n', f{i}); show_(v.(f{i})); end
  elseif ischar(v)
    printf('char %s\\n', v);
  else
    printf('%s %d %d', class(v), size(v,1), size(v,2)); printf(' %.17g', v); printf('\\n');
  end
end
function call_(n, nout, f, varargin)
  printf('#BEGIN %d\\n', n); fflush(stdout);
  keep = cell(1, numel(varargin));
  for i=1:numel(varargin); if isa(varargin{i},'double'); keep{i} = varargin{i}(:) + 0; end; end
  try
    out = cell(1, nout);
    [out{:}] = f(varargin{:});
    printf('\\n#OK %d\\n', nout);
    for i=1:nout; show_(out{i}); end
  catch e
    printf('\\n#ERR [%s] %s\\n', e.identifier, strrep(e.message, "\\n", ' '));
  end
  for i=1:numel(varargin)
    if isa(varargin{i},'double') && ! isequaln(keep{i}, varargin{i}(:)); printf('#CHANGED %d\\n', i); end
  end
  printf('#END %d\\n', n); fflush(stdout);
end
"""


def arr(v):
    return (ct.c_double * max(1, len(v)))(*v)


def iarr(v):
    return (ct.c_int * max(1, len(v)))(*v)


def gen(n, s):
    h, out = s * 7919 + 13, []
    for _ in range(n):
        h = (h * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        q = (h >> 40) % 13 - 6
        out.append(float(q or 1))
    return out


def ref_l1qc(r, k, b, pix, o):
    o = {**LQ, **o, "verbose": 0}
    x, s = arr([0] * (r * k)), arr([0] * 4)
    d = arr([o[q] for q in ("epsilon", "mu", "lbtol", "newton_tol", "l1_tol", "cgtol", "tau")])
    i = iarr([o["newton_max_iter"], 0, o["cgmaxiter"], {1: DCT1, 2: DCT2}[o["dct_mode"]], o["lbiter"], o["warm_start_cg"]])
    st = C.ref_l1qc(r, k, len(b), arr(b), iarr(pix), d, i, x, s)
    return st, list(x), list(s)


def ref_nesta(r, k, b, pix, o):
    o = {**NE, **o, "verbose": 0}
    f, su = arr([0] * (r * k)), ct.c_int(0)
    d = arr([o[q] for q in ("alpha_v", "alpha_h", "sigma", "mu", "tol")])
    i = iarr([o["n_continue"], 0, {1: DCT1, 2: DCT2}[o["dct_mode"]], ANA if o["bp_mode"] == "analysis" else SYN])
    st = C.ref_nesta(r, k, len(b), arr(b), iarr(pix), d, i, f, ct.byref(su))
    return st, list(f)


C.ref_breg.argtypes = [ct.c_int, ct.c_int, ct.POINTER(ct.c_double), ct.c_double, ct.c_double, ct.c_int, ct.c_int, ct.POINTER(ct.c_double)]


def ref_breg(n, m, f, mu, tol, it):
    u = arr([0] * (n * m))
    C.ref_breg(n, m, arr(f), mu, tol, it, 1, u)
    return list(u)


def lit(v):
    return "[" + ",".join("%.17g" % x for x in v) + "]"


def opts(fn, o):
    return fn + "(" + ",".join("'%s',%s" % (k, "'%s'" % v if isinstance(v, str) else "%.17g" % v) for k, v in o.items()) + ")"


def octave(c, calls):
    """calls: list of (description, nout, expression list). -> list of ("ok", [values]) | ("err", id, message)"""
    d = tempfile.mkdtemp(prefix="l1c_oct_")
    try:
        with open(d + "/drive.m", "w") as f:
            f.write(PRE)
            for p in [MDIR] + DIRS:
                f.write("addpath('%s');\n" % p)
            for i, (desc, nout, ex) in enumerate(calls):
                f.write("call_(%d, %d, %s);\n" % (i, nout, ", ".join(ex)))
            f.write("printf('#DONE\\n');\n")
        c.step(len(calls))
        try:
            p = subprocess.run(["octave-cli", "--norc", "--no-history", "-q", d + "/drive.m"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=d, timeout=120)
        except subprocess.TimeoutExpired:
            c.fail("Octave did not come back from the calls")
        t = p.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = []
    for i, (desc, nout, ex) in enumerate(calls):
        a = t.find("#BEGIN %d\n" % i)
        b = t.find("#END %d\n" % i, a)
        if a < 0:
            print(t[-2000:])
            raise RuntimeError("Octave did not start the calls: " + t[-500:])
        if b < 0:
            c.fail("Octave died in: %s\n%s" % (desc, t[a:][-600:]))
        body = t[a:b].split("\n")
        for l in body:
            if l.startswith("#CHANGED"):
                c.fail("%s: argument %s was modified in the caller's workspace" % (desc, l[9:]))
        for j, l in enumerate(body):
            if l.startswith("#ERR"):
                res.append(("err", l[5:], "\n".join(body[1:j]))); break
            if l.startswith("#OK"):
                res.append(("ok", parse(body[j + 1:]), "\n".join(body[1:j]))); break
        else:
            c.fail("no answer for: " + desc)
        c.check()
    if "#DONE" not in t or p.returncode != 0:
        c.fail("Octave ended with status %s after the calls: %s" % (p.returncode, t[-300:]))
    return res


def parse(ls):
    out, it = [], iter([l for l in ls if l])

    def one(l):
        w = l.split(" ")
        if w[0] == "struct":
            s = {}
            for _ in range(int(w[3])):
                k = next(it)[1:]
                s[k] = one(next(it))
            return s
        if w[0] == "char":
            return l[5:]
        return (w[0], int(w[1]), int(w[2]), [float(x.replace("NaN", "nan").replace("Inf", "inf")) for x in w[3:]])
    for l in it:
        out.append(one(l))
    return out


def near(a, b, tol):
    s = max([abs(x) for x in b] + [1e-12])
    return len(a) == len(b) and all(abs(x - y) <= tol * s for x, y in zip(a, b))


def masks(m):
    return [list(range(0, m, 2)), [m - 1 - i for i in range(m) if (i * 5 + 3) % m < m // 2], list(range(m - 1, 0, -1))]


LV = dict(epsilon=[.5, 1e-3], mu=[3, 40], lbtol=[.1, 1e-5], tau=[2, 50], lbiter=[1, 3], newton_tol=[.5, 1e-8], newton_max_iter=[1, 3], verbose=[0, 1], l1_tol=[.5, 0], cgtol=[.4, 1e-3], cgmaxiter=[1, 2], warm_start_cg=[1, 2], dct_mode=[1, 2])
NV = dict(sigma=[.5, 2], mu=[.3, 1e-3], tol=[.1, 1e-5], alpha_v=[.7, 3], alpha_h=[.4, 2], verbose=[0, 1], n_continue=[1, 3], dct_mode=[1, 2], bp_mode=["analysis", "synthesis"])
SH = [(2, 3), (3, 2), (4, 1), (1, 5), (3, 4), (4, 3), (5, 5), (6, 1), (2, 7)]


def combos(V, pairs):
    o = [{}] + [{k: v} for k in V for v in V[k]]
    if pairs:
        ks = list(V)
        o += [{a: V[a][0], b: V[b][0]} for i, a in enumerate(ks) for b in ks[i + 1:]]
    return o


def judge_l1qc(c, desc, res, want, nout, N):
    if want[0] != 0:
        if res[0] == "ok" and nout == 2 and res[1][1]["status"][3][0] == 0:
            c.fail("%s: the C solver fails with %d, the call reported success" % (desc, want[0]))
        return
    if res[0] != "ok":
        c.fail("%s: a valid call raised %s" % (desc, res[1]))
    x = res[1][0]
    if x[0] != "double" or x[1] * x[2] != N or x[2] != 1:
        c.fail("%s: x is a %s of size %dx%d" % (desc, x[0], x[1], x[2]))
    if not near(x[3], want[1], 1e-6):
        c.fail("%s: x = %s, the C result is %s" % (desc, x[3], want[1]))
    if nout == 2:
        s = res[1][1]
        for i, k in enumerate(("l1", "total_newton_iter", "total_cg_iter", "status")):
            v, w = s[k][3][0], want[2][i]
            if abs(v - w) > (1e-6 * abs(w) if i == 0 else max(2, .1 * w) if i < 3 else 0):
                c.fail("%s: LBRes.%s = %g, the C solver reports %g" % (desc, k, v, w))
    c.state(desc)


def s_l1qc(c):
    r, k = c.pick(SH); mi = c.choose(3)
    p = masks(r * k)[mi]
    if len(p) < 2 or len(p) >= r * k:
        raise mcpy.Prune()
    c.begin("l1qc_dct %dx%d in Octave, mask %d, every option" % (r, k, mi))
    b = [gen(r * k, 10 * r + k)[q] for q in p]
    calls, want = [], []
    for j, o in enumerate(combos(LV, G.thorough or mi == 0)):
        nout = 1 + j % 2
        o = {**o}
        o.setdefault("verbose", 0)
        tr = ["", "'"][(j // 2) % 2], ["", "'"][(j // 4) % 2]
        calls.append(("l1qc_dct(%d,%d,..) pixels %s %s options %s" % (r, k, [q + 1 for q in p], tr, o), nout, ["@l1qc_dct", str(r), str(k), lit(b) + tr[0], lit([q + 1 for q in p]) + tr[1], opts("l1qc_dct_opts", o)]))
        want.append(ref_l1qc(r, k, b, p, o))
    for (d, n, _), res, w in zip(calls, octave(c, calls), want):
        judge_l1qc(c, d, res, w, n, r * k)


def s_nesta(c):
    r, k = c.pick(SH + [(4, 4)]); mi = c.choose(3)
    p = masks(r * k)[mi]
    if len(p) < 2 or len(p) >= r * k:
        raise mcpy.Prune()
    c.begin("nesta_dctTV %dx%d in Octave, mask %d, every option" % (r, k, mi))
    b = [gen(r * k, 10 * r + k)[q] for q in p]
    calls, want = [], []
    for j, o in enumerate(combos(NV, G.thorough or mi == 0)):
        o = {**o}
        o.setdefault("verbose", 0); o.setdefault("mu", 1e-2)
        tr = ["", "'"][j % 2], ["", "'"][(j // 2) % 2]
        calls.append(("nesta_dctTV(%d,%d,..) pixels %s %s options %s" % (r, k, [q + 1 for q in p], tr, o), 2, ["@nesta_dctTV", str(r), str(k), lit(b) + tr[0], lit([q + 1 for q in p]) + tr[1], opts("nesta_opts", o)]))
        want.append(ref_nesta(r, k, b, p, o))
    for (d, n, _), res, w in zip(calls, octave(c, calls), want):
        if w[0]:
            if res[0] == "ok" and res[1][1][3][0] == 0:
                c.fail("%s: the C solver fails with %d, the call reported success" % (d, w[0]))
            continue
        if res[0] != "ok":
            c.fail("%s: a valid call raised %s" % (d, res[1]))
        x, st = res[1]
        if x[:3] != ("double", r, k) or st[3] != [0.0]:
            c.fail("%s: returned a %s of size %dx%d with status %s" % (d, x[0], x[1], x[2], st[3]))
        if not near(x[3], w[1], 1e-5):
            c.fail("%s: image %s, the C result is %s" % (d, x[3], w[1]))
        c.state(d)


def s_denoise(c):
    n = 3 + c.choose(4); m = 3 + c.choose(4)
    c.begin("breg_anistropic_TV %dx%d in Octave" % (n, m))
    calls, want = [], []
    for im in range(2):
        f = gen(n * m, 3 * n + m + im)      # row-major rows of the image
        img = "[" + ";".join(",".join("%.17g" % f[i * m + j] for j in range(m)) for i in range(n)) + "]"
        for mu, tol, it in [(10, .001, 1000), (.5, .001, 1000), (2, .3, 1000), (2, 1e-6, 7), (.5, 1e-6, 1)]:
            calls.append(("breg_anistropic_TV %dx%d image %d mu %g tol %g max_iter %d" % (n, m, im, mu, tol, it), 1, ["@breg_anistropic_TV", img, "%g" % mu, "%g" % tol, str(it)]))
            a = ref_breg(n, m, f, mu, tol, it)
            cm = [f[i * m + j] for j in range(m) for i in range(n)]
            want.append(([a[i * m + j] for j in range(m) for i in range(n)], ref_breg(m, n, cm, mu, tol, it)))
    for (d, _, _), res, w in zip(calls, octave(c, calls), want):
        if res[0] != "ok":
            c.fail("%s: a valid call raised %s" % (d, res[1]))
        x = res[1][0]
        if x[:3] != ("double", n, m):
            c.fail("%s: returned a %s of size %dx%d" % (d, x[0], x[1], x[2]))
        if not near(x[3], w[0], 1e-9) and not near(x[3], w[1], 1e-9):
            c.fail("%s: image %s, the C result is %s" % (d, x[3], w[1]))
        c.state(d)


DOC = [dict(mu=10, lbtol=1e-3, newton_max_iter=50, cgtol=1e-8, cgmaxiter=200), dict(alpha_v=0, alpha_h=0, n_continue=5)]      # documented defaults


def s_builders(c):
    """the option builders: every field, default or overridden, alone and in pairs"""
    which = c.choose(2)
    fn, D, V = [("l1qc_dct_opts", LQ, LV), ("nesta_opts", NE, NV)][which]
    c.begin(fn + " with every option overridden")
    cs = combos(V, True)
    calls = [("%s %s" % (fn, o), 1, ["@() " + opts(fn, o)]) for o in cs]
    for (d, _, _), res, o in zip(calls, octave(c, calls), cs):
        if res[0] != "ok":
            c.fail("%s raised %s" % (d, res[1]))
        s = res[1][0]
        for k, v in {**D, **o}.items():
            if k not in s:
                c.fail("%s: field %s is missing" % (d, k))
            g = s[k] if isinstance(s[k], str) else s[k][3][0] if len(s[k][3]) == 1 else s[k][3]
            if g != v and (k in o or k in DOC[which]):
                c.fail("%s: field %s is %r" % (d, k, g))
        c.state(d)


BAD = [("empty", "[]"), ("0x3", "zeros(0,3)"), ("2x2", "[1,2;3,4]"), ("int32 scalar", "int32(3)"), ("single", "single(3)"), ("string", "'3'"), ("longer string", "'abc'"), ("logical", "true"), ("empty struct array", "struct('a',{})"), ("plain struct", "struct()"), ("cell", "{3}"), ("3-d", "ones(2,2,2)"), ("int32 vector", "int32([1;5;7;12])"), ("single vector", "single([1;2;3;4])"), ("logical vector", "[true;false;true;true]"), ("function", "@sin"), ("range as int8", "int8(1:4)"), ("cellstr", "{'a','b'}")]
GOOD = [["@l1qc_dct", "3", "4", "[1;2;3;4]", "[1;5;7;12]", "l1qc_dct_opts('verbose',0)"], ["@nesta_dctTV", "3", "4", "[1;2;3;4]", "[1;5;7;12]", "nesta_opts('verbose',0,'mu',1e-2)"], ["@breg_anistropic_TV", "magic(4)(1:3,:)", "10", ".001", "20"]]


def s_invalid(c):
    fn = c.choose(3)
    g = GOOD[fn]
    c.begin("%s in Octave with every kind of invalid argument" % g[0])
    no = 1 if fn == 2 else 2
    calls = [("%s with argument %d %s" % (g[0], a, nm), no, g[:a] + [e] + g[a + 1:]) for a in range(1, len(g)) for nm, e in BAD]
    calls += [("%s with %d arguments" % (g[0], n - 1), no, g[:n]) for n in range(1, len(g))]
    if fn < 2:
        b = ["l1qc_dct_opts", "nesta_opts"][fn]
        fields = list([LQ, NE][fn])
        for f in fields:
            if not (fn == 0 and f == "dct_mode"):
                calls.append(("%s without field %s" % (g[0], f), no, g[:5] + ["rmfield(%s,'%s')" % (b + "('verbose',0)", f)]))
            for nm, e in BAD:
                calls.append(("%s with field %s %s" % (g[0], f, nm), no, g[:5] + ["setfield(%s,'%s',%s)" % (b + "('verbose',0)", f, e)]))
        for v in ("0", "-1", "13", "NaN", "Inf", "-Inf", "1e300", "4294967297", "-2147483648"):
            for q in range(4):
                ix = ["1", "5", "7", "12"]; ix[q] = v
                calls.append(("%s with index %s at %d" % (g[0], v, q), no, g[:4] + ["[" + ";".join(ix) + "]"] + g[5:]))
        for r, k in ((0, 4), (3, 0), (-3, -4), (-3, 4), (1, 3), (1, 1)):
            calls.append(("%s with size %dx%d" % (g[0], r, k), no, [g[0], str(r), str(k), g[3], "[1;2;3;4]", g[5]]))
        for nb, np_ in ((3, 4), (4, 3), (2, 4), (5, 4)):
            calls.append(("%s with %d measurements and %d indices" % (g[0], nb, np_), no, g[:3] + [lit(range(1, nb + 1)), lit(range(1, np_ + 1)), g[5]]))
        if fn == 1:
            for m in ("", "Analysis", "analysis ", "synthesisx", "synthesis and more", "x"):
                calls.append(("nesta_dctTV with bp_mode '%s'" % m, no, g[:5] + ["nesta_opts('verbose',0,'bp_mode','%s')" % m]))
            calls.append(("nesta_dctTV with one output", 1, g))
        for e in ("[%s,%s]", "[%s;%s]"):
            calls.append(("%s with a struct array" % g[0], no, g[:5] + [e % (g[5], g[5])]))
    else:
        calls += [("breg with a %dx%d image" % (n, m), 1, [g[0], "ones(%d,%d)" % (n, m)] + g[2:]) for n in range(6) for m in range(6) if n < 3 or m < 3]
    for (d, n, _), res in zip(calls, octave(c, calls)):
        if res[0] == "ok":
            c.fail("%s: invalid arguments were accepted: %s" % (d, res[1]))
        c.state(d); c.outcome(res[1].split("]")[0])


MENU = [("l1qc dct1", 2, GOOD[0]), ("l1qc dct2", 1, ["@l1qc_dct", "4", "3", "[4,-2,3,1]", "[12,5,7,2]", "l1qc_dct_opts('verbose',0,'dct_mode',2)"]),
        ("nesta TV", 2, ["@nesta_dctTV", "3", "4", "[1;2;3;4]", "[1;5;7;12]", "nesta_opts('verbose',0,'mu',1e-2,'alpha_v',.5)"]), ("nesta synthesis", 2, ["@nesta_dctTV", "4", "3", "[1;2;3;4]", "[12;5;7;1]", "nesta_opts('verbose',0,'mu',1e-2,'bp_mode','synthesis')"]),
        ("denoise", 1, GOOD[2]), ("bad index", 2, GOOD[0][:4] + ["[1;5;7;13]"] + GOOD[0][5:]), ("bad mode", 2, GOOD[1][:5] + ["nesta_opts('verbose',0,'bp_mode','x')"]), ("small image", 1, [GOOD[2][0], "ones(2,5)"] + GOOD[2][2:]), ("verbose", 2, GOOD[0][:5] + ["l1qc_dct_opts('verbose',2)"])]


def s_sequences(c):
    """every sequence of three calls in one session gives what each call gives in a session of its own"""
    first = c.choose(len(MENU)); second = c.choose(len(MENU))
    c.begin("Octave sessions starting with %s, %s" % (MENU[first][0], MENU[second][0]))
    solo = s_sequences.__dict__.setdefault("solo", {})
    if not solo:
        for i, m in enumerate(MENU):
            r = octave(c, [m])[0]
            solo[i] = r[0], str(r[1]) if r[0] == "err" else r[1]
    order = []
    for t in range(len(MENU)):
        order += [first, second, t]
    res = octave(c, [MENU[i] for i in order])
    for i, r in zip(order, res):
        if r[0] != solo[i][0] or not same(r[1], solo[i][1]):
            c.fail("%s gives %s here and %s in a fresh session" % (MENU[i][0], r[1], solo[i][1]))
    c.state(first, second)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return isinstance(b, tuple) and a[:3] == b[:3] and near(a[3], b[3], 1e-9)
    return a == b


for nm, f in (("octave_l1qc", s_l1qc), ("octave_nesta", s_nesta), ("octave_denoise", s_denoise), ("octave_option_builders", s_builders), ("octave_invalid", s_invalid), ("octave_sequences", s_sequences)):
    explore(nm, f)
mcpy.finish()
