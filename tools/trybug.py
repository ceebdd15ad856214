#!/usr/bin/env python3
"""trybug.py [--notest] [--props C01,C02|all] ID...: apply a planted bug to /repo, build, run tests, demo and checks, undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
notest = "--notest" in a
props = None
if "--props" in a:
    props = a[a.index("--props") + 1]; i = a.index("--props"); del a[i:i + 2]
a = [x for x in a if x != "--notest"]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
if not a: a = sorted(os.listdir(V + "/seeded"))
for b in a:
    d = V + "/seeded/" + b
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    sh("bash /opt/vp/build.sh")
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(b, "APPLY FAILED", r.stdout); continue
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(b, "BUILD FAILED", r.stdout[-1500:]); continue
        r1 = sh("cd /repo && bash %s/demo.sh" % d)
        fails = "-"
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/tb.json")
            t = json.load(open("/tmp/tb.json"))
            ok = set(t.get("passed", []))
            want = base.get("stable") or base.get("passed") or base
            fails = [x for x in want if x not in ok]
        res = {}
        ps = [meta["property"]] if not props else (subprocess.run(["python3", V + "/run.py", "--list"], stdout=subprocess.PIPE, text=True).stdout.split() if props == "all" else props.split(","))
        for p in ps:
            rc = sh("cd %s && python3 run.py %s" % (V, p))
            res[p] = rc.returncode
            if rc.returncode == 1:
                print("      ", [l.strip()[:230] for l in rc.stdout.splitlines() if l.startswith("  what")][:1])
            elif rc.returncode: print(rc.stdout[-800:])
        print("%-28s demo %d->%d  tests %s  checks %s" % (b, r0.returncode, r1.returncode, "ok" if fails == [] else fails, res), flush=True)
        if r0.returncode: print("   demo on clean:", r0.stdout[-300:])
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
