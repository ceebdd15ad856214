"""Writes seeded/<id>/ from an edit of /repo's sources and a demonstration."""
import difflib, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: the repository, built in _build. Exit 0: behaves; non-zero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -O1 -w -std=gnu11 -march=x86-64-v3 -fopenmp %(cf)s -I include -I src -I _build/include "$D/demo.c" -o "$T/demo" -L _build/src -ll1c -Wl,-rpath,"$PWD/_build/src" -lopenblas -lcjson -lfftw3 -lm -ldl || exit 3
export OPENBLAS_NUM_THREADS=1 %(env)s
R="$PWD"; cd "$T" && %(run)stimeout 200 ./demo
'''
HEAD = r'''#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include "cblas.h"
#include "l1c.h"
#include "l1c_math.h"
static int bad(const char* w) { fprintf(stderr, "demo: %s\n", w); return 1; }
static int close_(double a, double b, double t) { return fabs(a - b) <= t * (1 + fabs(b)); }
static double gen(int i) { return sin(1.7 * i + 0.3) + 0.25 * cos(5.1 * i); }
'''


def plant(pid, prop, edits, needs, breaks, demo, cf="", env="OMP_NUM_THREADS=1", run="", sh=None, files=None):
    d = V + "/seeded/" + pid
    os.makedirs(d, exist_ok=True)
    byf = {}
    for f, old, new in edits:
        t = byf.get(f) or subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout
        assert t.count(old) == 1, (pid, f, t.count(old), old)
        byf[f] = t.replace(old, new)
    out = ""
    for f, t in byf.items():
        o = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    if sh:
        open(d + "/demo.sh", "w").write(sh)
    else:
        open(d + "/demo.sh", "w").write(DEMO % dict(cf=cf, env=env, run=run))
        open(d + "/demo.c", "w").write(HEAD + demo)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
