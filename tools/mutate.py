#!/usr/bin/env python3
"""mutate.py OUT [--files a,b] [--stride k] [--offset o] [--ops del,rel,...]: mutation campaign in scratch copies.

Applies one small change at a time to a copy of /repo's sources and runs the checks mapped to the file until one
reports a violation; survivors (and what killed the rest) go to OUT. Not part of any check."""
import json, os, re, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"src/TV.c": ["C08", "C09"], "src/bregman.c": ["C18", "C17", "C06", "C05", "C09", "C22"], "src/cgsolve.c": ["C10", "C22", "C06"],
       "src/dct1.c": ["C01", "C04", "C06", "C05"], "src/dct2.c": ["C01", "C04", "C06", "C05"], "src/dct_transforms.c": ["C01", "C05", "C04"],
       "src/dct_tv_transforms.c": ["C02", "C04", "C05", "C06"], "src/json_utils.c": ["C21"], "src/l1c_logging.c": ["C22"],
       "src/l1c_math.c": ["C07", "C09"], "src/l1c_memory.c": ["C23", "C06"], "src/l1qc_dct.c": ["C14", "C05", "C06", "C22"],
       "src/l1qc_newton.c": ["C13", "C12", "C06", "C05", "C22", "C14"], "src/linesearch.c": ["C11", "C22"], "src/matrix_transforms.c": ["C03", "C04", "C06", "C05"],
       "src/nesta.c": ["C16", "C15", "C05", "C06", "C22"], "src/vcl/vcl_math.cpp": ["C07"],
       "interfaces/mex/breg_anistropic_TV_mex.c": ["C20"], "interfaces/mex/l1c_mex_utils.c": ["C20"], "interfaces/mex/l1qc_dct_mex.c": ["C20"],
       "interfaces/mex/nesta_dctTV_mex.c": ["C20"], "interfaces/python/l1cPy.c": ["C19"]}
def strip(src):
    """line -> code without comments and strings (same length)"""
    out, i, st = [], 0, None
    while i < len(src):
        c = src[i]
        if st is None:
            if src.startswith("/*", i): st = "*/"; out.append("  "); i += 2; continue
            if src.startswith("//", i): st = "\n"; out.append("  "); i += 2; continue
            if c in "\"'": st = c; out.append(" "); i += 1; continue
            out.append(c); i += 1
        elif st in ("*/", "\n"):
            if src.startswith(st, i):
                out.append("\n" if st == "\n" else "  "); i += len(st); st = None
            else:
                out.append("\n" if c == "\n" else " "); i += 1
        else:
            if c == "\\": out.append("  "); i += 2; continue
            if c == st: st = None
            out.append("\n" if c == "\n" else " "); i += 1
    return "".join(out)
REL = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&")]
ARI = [(r"(?<=[\w\])] )\+(?= [\w(])", "-"), (r"(?<=[\w\])] )-(?= [\w(])", "+"), (r"(?<=[\w\])] )\*(?= [\w(])", "/"), (r"(?<=[\w\])] )/(?= [\w(])", "*"), (r"\+=", "-="), (r"-=", "+=")]
CON = [(r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])(\d*\.\d+|\d+\.)(?![\w.])", "LIT")]
IDS = [("n", "m"), ("m", "n"), ("alp_v", "alp_h"), ("alp_h", "alp_v"), ("row", "col"), ("col", "row"), ("i", "j"), ("x", "y"), ("lambda", "mu"), ("mu", "lambda"), ("p", "m"), ("fu1", "fu2"), ("fu2", "fu1")]
def mutants(f, ops):
    src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True).stdout
    st = strip(src)
    lines = src.split("\n"); sl = st.split("\n")
    for ln, (a, s) in enumerate(zip(lines, sl)):
        if not s.strip() or s.lstrip().startswith("#include") or "printf" in s: continue
        if s.lstrip().startswith("#pragma") and "prag" in ops:
            for m in re.finditer(r"\b(private|firstprivate|reduction|lastprivate)\([^)]*\)", s):
                yield ln, "prag", a[:m.start()] + a[m.end():]
            continue
        if s.lstrip().startswith("#"): continue
        if "rel" in ops:
            for r, t in REL:
                for m in re.finditer(r, s): yield ln, "rel", a[:m.start()] + t + a[m.end():]
        if "ari" in ops:
            for r, t in ARI:
                for m in re.finditer(r, s): yield ln, "ari", a[:m.start()] + t + a[m.end():]
        if "con" in ops:
            for r, t in CON:
                for m in re.finditer(r, s):
                    tt = t if t != "LIT" else repr(float(m.group(0)) * 1.5 + (0.5 if float(m.group(0)) == 0 else 0))
                    yield ln, "con", a[:m.start()] + tt + a[m.end():]
        if "ids" in ops:
            for x, y in IDS:
                for m in re.finditer(r"(?<![\w.>])%s(?!\w)" % x, s):
                    if re.match(r"\s*(static|double|int|l1c_int|void)\b.*\b%s\s*[,;=)]" % x, s): continue
                    yield ln, "ids", a[:m.start()] + y + a[m.end():]
        if "del" in ops and re.match(r"^\s*[\w*\[\]().>\-, +/&]+(=|\+\+|--|\().*;\s*$", s) and not re.match(r"^\s*(return|goto|break|(static|const|double|int|l1c_int|struct|char|float|size_t|unsigned|FILE|cJSON)\b)", s):
            yield ln, "del", re.match(r"\s*", a).group(0) + ";"
        if "del" in ops and re.match(r"^\s*(return|goto|break)\b", s): yield ln, "del", re.match(r"\s*", a).group(0) + ";"
def main():
    a = sys.argv[1:]; out = a[0]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    files = opt("--files", "").split(",") if "--files" in a else list(MAP)
    ops = opt("--ops", "rel,ari,con,ids,del,prag").split(",")
    stride, off = int(opt("--stride", 1)), int(opt("--offset", 0))
    props = opt("--props", "")
    D = "/tmp/mutc_%d" % os.getpid()
    try:
        for f in files:
            ms = [m for i, m in enumerate(mutants(f, ops)) if i % stride == off]
            src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            if "--count" in a: print(f, len(ms)); continue
            shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
            subprocess.run("git -C /repo archive HEAD | tar x -C " + D, shell=True, check=True)
            for ln, op, new in ms:
                t = list(src); t[ln] = new
                open(D + "/" + f, "w").write("\n".join(t))
                r = subprocess.run("gcc -w -fsyntax-only -std=gnu11 -fopenmp -march=x86-64-v3 -I include -I src -I /repo/_build/include %s" % f, shell=True, cwd=D, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) if f.startswith("src/") and f.endswith(".c") else None
                if r is not None and r.returncode: continue
                res = []; t0 = time.time(); killed = None
                for p in (props.split(",") if props else MAP[f]):
                    try:
                        rc = subprocess.run(["python3", V + "/run.py", p], env=dict(os.environ, L1C_REPO=D, L1C_FASTFAIL="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        res.append(p + ":timeout"); continue
                    if rc.returncode == 1: killed = p; break
                    if rc.returncode == 2 and "build failed" in rc.stdout: killed = "build"; break
                    if rc.returncode != 0: res.append(p + ":" + rc.stdout[-300:])
                with open(out, "a") as o:
                    o.write(json.dumps(dict(file=f, line=ln + 1, op=op, old=src[ln].strip(), new=new.strip(), killed=killed, odd=res, s=round(time.time() - t0))) + "\n")
    finally:
        shutil.rmtree(D, ignore_errors=True)
main()
