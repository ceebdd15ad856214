"""Builds the library under test from /repo's working tree into a scratch folder."""
import glob, hashlib, os, re, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get("L1C_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARCH = ["-march=x86-64-v3", "-m64"]
# the flags of the project's own build (CMakeLists.txt with the sandbox's -march)
PROD = ["-O3", "-g", "-fno-common", "-fPIC"] + ARCH
ASAN = ["-O1", "-g", "-fno-common", "-fPIC", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + ARCH
WRAPS = ["malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "free",
         "fftw_plan_r2r_1d", "fftw_plan_r2r_2d", "fftw_plan_r2r", "fftw_destroy_plan", "fftw_execute",
         "fftw_execute_r2r", "fftw_cleanup", "fftw_cleanup_threads", "fftw_malloc", "fftw_alloc_real", "fftw_free"]
# memory-access instrumentation only: the harness supplies the run time (harness/sched.cpp)
TSAN = {"o0": ["-O0", "-g", "-fno-common", "-fPIC", "-fsanitize=thread"] + ARCH,
        "o3": ["-O3", "-g", "-fno-common", "-fPIC", "-fsanitize=thread"] + ARCH}
LIBS = ["-lfftw3_omp", "-lfftw3", "-lopenblas", "-lcjson", "-lgomp", "-lpthread", "-lm"]

DEFS = {"HAVE_FFTW3_THREADS": "", "_HAVE_MM_MALLOC_": "", "_HAVE_POSIX_MEMALIGN_": "", "_POSIX_C_SOURCE": "200112L"}


class BuildError(Exception):
    pass


def config_h(text):
    def rep(m):
        k = m.group(1)
        return "#define %s %s" % (k, DEFS[k]) if k in DEFS else "/* #undef %s */" % k
    text = re.sub(r"#cmakedefine\s+(\w+)[^\n]*", rep, text)
    return text.replace("@PROJECT_NAME@", "l1c").replace("@PROJECT_VERSION@", "0.0.1")


def lib_sources():
    cm = os.path.join(REPO, "src/CMakeLists.txt")
    try:
        t = re.sub(r"#[^\n]*", "", open(cm).read())
        m = re.search(r"add_library\s*\(\s*l1c\s+(?:SHARED|STATIC)?([^)]*)\)", t)
        names = [w for w in m.group(1).split() if w.endswith((".c", ".cpp"))]
        out = [os.path.join(REPO, "src", n) for n in names]
        if out and all(os.path.exists(f) for f in out):
            return out
    except Exception:
        pass
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/vcl/*.cpp"))


def _digest(extra):
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/include", REPO + "/interfaces", VERIF + "/harness"):
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".cpp", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(REPO + "/l1c_config.h.in", "rb").read())
    h.update(repr(extra).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def incs(d):
    return ["-I" + d + "/include", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]


def build_lib(d, variant="prod", cflags=None, jobs=8):
    """objects of the library under test -> list of .o"""
    os.makedirs(d + "/include", exist_ok=True)
    with open(d + "/include/config.h", "w") as f:
        f.write(config_h(open(REPO + "/l1c_config.h.in").read()))
    base = cflags or {"prod": PROD, "asan": ASAN, **TSAN}[variant]
    od = d + "/obj_" + variant
    os.makedirs(od, exist_ok=True)
    cmds, objs = [], []
    for s in lib_sources():
        o = od + "/" + os.path.basename(s) + ".o"
        objs.append(o)
        fl = list(base)
        if s.endswith(".cpp"):
            # third-party SIMD headers: address checks only
            fl = [x.replace("address,undefined", "address") for x in fl]
            cmds.append(["g++", "-std=gnu++11"] + fl + incs(d) + ["-w", "-c", s, "-o", o])
        else:
            cmds.append(["gcc", "-std=gnu11"] + fl + ["-fopenmp"] + incs(d) + ["-w", "-c", s, "-o", o])
    return cmds, objs


def build_harness(name, variant="prod", extra_src=(), extra_flags=(), opt="-O2", libflags=None, link_extra=(), wraps=True, shim=False, more=None):
    """compile harness/<name>.cpp with the library objects; returns executable path"""
    key = _digest((name, variant, tuple(extra_src), tuple(extra_flags), opt, libflags, tuple(link_extra), wraps, shim))
    d = os.path.join(VERIF, ".build", key)
    exe = os.path.join(d, name + "_" + variant)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    cmds, objs = build_lib(d, variant, libflags)
    san = ["-fsanitize=address,undefined"] if variant == "asan" else []
    hs = [VERIF + "/harness/" + name + ".cpp"] + [VERIF + "/harness/" + s for s in extra_src]
    if wraps:
        hs.append(VERIF + "/harness/wrap.c")
    hobjs = []
    for s in hs:
        o = d + "/h_" + os.path.basename(s) + "_" + variant + ".o"
        hobjs.append(o)
        hf = [opt, "-g", "-fPIC", "-w"] + ARCH + list(extra_flags) + (["-fsanitize=address"] if variant == "asan" and s.endswith(".cpp") else [])
        if s.endswith(".cpp"):
            cmds.append(["g++", "-std=gnu++17"] + hf + incs(d) + ["-c", s, "-o", o])
        else:
            cmds.append(["gcc", "-std=gnu11"] + hf + incs(d) + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, cmds))
    if shim:
        redirect(objs, [o for o in hobjs if "sched.cpp" in o][0])
    if more:
        objs = objs + more(d, variant)
    w = ["-Wl,--wrap=" + x for x in WRAPS] if wraps else []
    run(["g++"] + san + objs + hobjs + w + list(link_extra) + LIBS + ["-o", exe + ".tmp"])
    os.rename(exe + ".tmp", exe)
    _prune(d)
    return exe


def redirect(objs, shim_obj):
    """bind the OpenMP, BLAS-1 and block-copy calls of the library objects to the controlled run time"""
    have = set(l.split()[-1][5:] for l in run(["nm", shim_obj]).splitlines() if " T shim_" in l)
    for o in objs:
        und = set(l.split()[-1] for l in run(["nm", "-u", o]).splitlines() if l.strip())
        a = []
        for u in sorted(und & have):
            a += ["--redefine-sym", "%s=shim_%s" % (u, u)]
        if a:
            run(["objcopy"] + a + [o])


MEXINC = ["-isystem", "/usr/include/octave-8.4.0/octave", "-isystem", "/usr/include/octave-8.4.0"]
MEXFUNS = ["l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"]


def mex_sources(name):
    base = REPO + "/interfaces/mex/"
    try:
        t = re.sub(r"#[^\n]*", "", open(base + "CMakeLists.txt").read())
        m = re.search(r"add_library\s*\(\s*" + name + r"\s+MODULE([^)]*)\)", t)
        out = [base + w for w in m.group(1).split() if w.endswith((".c", ".cpp"))]
        if out and all(os.path.exists(f) for f in out):
            return out
    except Exception:
        pass
    return [base + "l1c_mex_utils.c", base + name + "_mex.c"]


def mex_objects(d, variant):
    """one relocatable object per MEX function, its entry point renamed and everything else kept local"""
    fl = {"prod": PROD, "asan": ASAN}[variant]
    jobs, outs = [], []
    for f in MEXFUNS:
        os_ = []
        for s in mex_sources(f):
            o = d + "/mex_%s_%s_%s.o" % (f, os.path.basename(s), variant)
            os_.append(o)
            jobs.append(["gcc", "-std=gnu11"] + fl + MEXINC + incs(d) + ["-I" + REPO + "/interfaces/mex", "-w", "-c", s, "-o", o])
        outs.append((f, os_, d + "/mex_%s_%s.o" % (f, variant)))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    for f, os_, o in outs:
        run(["ld", "-r"] + os_ + ["-o", o])
        run(["objcopy", "--redefine-sym", "mexFunction=mexFunction_" + f, o])
        run(["objcopy", "--keep-global-symbol=mexFunction_" + f, o])
    return [o for _, _, o in outs]


def build_module(name, variant, sources, inc, out, link=(), rename=None):
    """library objects + binding sources + bindref.c + wrap.c -> shared object; returns its path"""
    key = _digest((name, variant, tuple(sources), tuple(inc), out, tuple(link)))
    d = os.path.join(VERIF, ".build", key)
    so = os.path.join(d, out)
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    cmds, objs = build_lib(d, variant)
    fl = {"prod": PROD, "asan": ASAN}[variant]
    for s in list(sources) + [VERIF + "/harness/bindref.c", VERIF + "/harness/wrap.c"]:
        o = d + "/b_" + os.path.basename(s) + ".o"
        objs.append(o)
        own = s.startswith(VERIF)
        cmds.append(["gcc", "-std=gnu11"] + ([x for x in fl if "sanitize" not in x] if own else fl) + list(inc) + incs(d) + ["-w", "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, cmds))
    san = ["-fsanitize=address,undefined"] if variant == "asan" else []
    run(["g++", "-shared"] + san + objs + ["-Wl,--wrap=" + x for x in WRAPS] + list(link) + LIBS + ["-o", so + ".tmp"])
    os.rename(so + ".tmp", so)
    _prune(d)
    return so


def _prune(keep, limit=40):
    """keep the local build cache small"""
    base = os.path.join(VERIF, ".build")
    ds = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
    import shutil
    for x in ds[:-limit]:
        if x != keep:
            shutil.rmtree(x, ignore_errors=True)
