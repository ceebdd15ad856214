#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   run one check
   run.py --replay <file>                      re-run one recorded violation
   run.py --list"""
import ctypes, json, mmap, os, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
from props import CHECKS
import numpy as np

VERIF = B.VERIF
NPROC = min(8, os.cpu_count() or 8)
STALL = 100.0     # no progress for this long: suspected hang
LONG = 150.0      # limit for a replay that runs alone
GRACE = 60.0      # after the first failing shard the others get this long before they are put aside
FASTFAIL = bool(os.environ.get("L1C_FASTFAIL"))


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1", LC_ALL="C", OMP_DYNAMIC="false",
             ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:handle_abort=1",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99")
    return e


try:
    _libc = ctypes.CDLL(None, use_errno=True)
except OSError:
    _libc = None


def die_with_parent():
    if _libc:
        _libc.prctl(1, 9, 0, 0, 0)


class Task:
    def __init__(self, exe, variant, shard, n, tier, tmp, extra):
        self.variant, self.shard = variant, shard
        tag = "%s_%s_%d" % (os.path.basename(exe if isinstance(exe, str) else "drv"), variant, shard)
        self.out, self.jr, self.err = [os.path.join(tmp, tag + x) for x in (".out", ".jr", ".err")]
        self.cmd = list(exe) if isinstance(exe, list) else [exe]
        self.cmd += ["--shard", "%d/%d" % (shard, n), "--tier", tier, "--variant", variant,
                     "--out", self.out, "--journal", self.jr] + extra
        self.base = (list(exe) if isinstance(exe, list) else [exe]) + ["--tier", tier, "--variant", variant] + extra
        self.p = None

    def start(self):
        for f in (self.jr, self.out + ".json"):
            if os.path.exists(f):
                os.remove(f)
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen(self.cmd, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env(), cwd=os.path.dirname(self.out), preexec_fn=die_with_parent)
        self.last = (0, time.time())

    def journal(self):
        try:
            b = open(self.jr, "rb").read()
            c = struct.unpack("<Q", b[:8])[0]
            path = b[8:32768].split(b"\0")[0].decode(errors="replace").strip()
            desc = b[32768:].split(b"\0")[0].decode(errors="replace")
            return c, path, desc
        except Exception:
            return 0, "", ""

    def stalled(self):
        c = self.journal()[0]
        if c != self.last[0]:
            self.last = (c, time.time())
        return time.time() - self.last[1] > STALL

    def errtail(self):
        try:
            t = open(self.err, "rb").read().decode(errors="replace")
        except Exception:
            return ""
        for k in ("ERROR: AddressSanitizer", "runtime error:"):
            i = t.find(k)
            if i >= 0:
                return t[max(0, i - 120):i + 1500]
        return t[-1500:]


def run_tasks(tasks, cut=False):
    """run the shards; with cut, shards still unfinished GRACE seconds after a failure end with rc 'aside'"""
    todo, running, done, failed = list(tasks), [], [], None
    while todo or running:
        if cut and failed and time.time() - failed > (0 if FASTFAIL else GRACE):
            for o in running:
                o.p.kill(); o.p.wait(); o.f.close()
            for o in running + todo:
                o.rc = "aside"
            return done + running + todo
        while todo and len(running) < NPROC:
            t = todo.pop(0)
            t.start(); running.append(t)
        time.sleep(0.02)
        for t in list(running):
            rc = t.p.poll()
            if rc is None and t.stalled():
                t.p.kill(); t.p.wait(); rc = "hang"
            if rc is not None:
                t.rc = rc; t.f.close()
                running.remove(t); done.append(t)
                if rc != 0 and not failed:
                    failed = time.time()
    return done


def alone(cmd, limit=LONG):
    """run one replay in a fresh process -> (status, output); status: ok | fail | crash | hang | diverged"""
    d = tempfile.mkdtemp(prefix="l1c_replay_")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env(), timeout=limit, cwd=d)
        out = p.stdout.decode(errors="replace")
        st = {0: "ok", 1: "fail", 3: "diverged"}.get(p.returncode, "crash")
        return st, out[-3000:]
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s when run alone" % limit
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(t, path, desc, msg, kind):
    """returns a confirmed violation dict or None"""
    cmd = t.base + ["--replay", path]
    st, out = alone(cmd)
    if st == "hang" and kind == "hang":         # no answer twice
        return dict(variant=t.variant, path=path, desc=desc, msg=msg, kind=kind, cmd=cmd, output=out)
    if st in ("fail", "crash", "hang"):
        st2, out2 = alone(cmd)
        if st2 in ("fail", "crash", "hang"):
            return dict(variant=t.variant, path=path, desc=desc, msg=msg, kind=kind if st != "fail" else "fail", cmd=cmd, output=out2)
    # depends on the executions before it in the same process: repeat the whole shard
    t2 = run_tasks([t])[0]
    if t2.rc == 1 or t2.rc == "hang" or t2.rc not in (0, 1, 3):
        c, p2, d2 = t2.journal()
        same = True
        if t2.rc == 1:
            vs = json.load(open(t2.out + ".json"))["violations"]
            same = any(v["suite"] + ":" + v["path"] == path for v in vs)
            if not same and vs:
                path, desc, msg, same = vs[0]["suite"] + ":" + vs[0]["path"], vs[0]["desc"], vs[0]["msg"], True
        else:
            path, desc = p2, d2
        if same:
            return dict(variant=t.variant, path=path, desc=desc, msg=msg + " (needs the preceding executions of the same process)",
                        kind=kind, cmd=t.base + ["--shard", t.cmd[t.cmd.index("--shard") + 1]], output=t2.errtail())
    return None


def collect(prop, tier):
    spec = CHECKS[prop]
    if "setup" in spec:
        exes = spec["setup"](B)          # [(cmd list, variant, extra args)]
    else:
        exes = []
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            built = list(ex.map(lambda v: B.build_harness(spec["harness"], v, **spec.get("build", {})), spec["variants"]))
        exes = [(e, v, spec.get("args", [])) for e, v in zip(built, spec["variants"])]
    tmp = tempfile.mkdtemp(prefix="l1c_%s_" % prop)
    tot = dict(executions=0, transitions=0, checks=0, pruned=0, per_suite={}, samples=[], violations=[], unconfirmed=0, states=0, outcomes=0, per_variant={})
    try:
        tasks = []
        for exe, v, extra in exes:
            n = spec.get("shards", NPROC)
            tasks += [Task(exe, v, i, n, tier, tmp, extra) for i in range(n)]
        done = run_tasks(tasks, not known(prop))
        st, oc = [], []
        done.sort(key=lambda t: {1: 0, "hang": 2, 0: 3, "aside": 4}.get(t.rc, 1))
        while done:
            t = done.pop(0)
            if t.rc == "aside":
                if not tot["violations"]:        # the failure did not repeat: finish what was put aside
                    done = run_tasks([t] + done, True)
                    done.sort(key=lambda t: {1: 0, "hang": 2, 0: 3, "aside": 4}.get(t.rc, 1))
                continue
            tries = 0
            while t.rc not in (0, 1) and len(tot["violations"]) < (1 if t.rc == "hang" else 3):
                if t.rc == 3:
                    raise RuntimeError("driver error in shard %d (%s): %s" % (t.shard, t.variant, t.errtail()))
                _, path, desc = t.journal()
                kind = "hang" if t.rc == "hang" else "crash"
                msg = "the code did not return" if kind == "hang" else "the process died (%s)" % t.rc
                tail = t.errtail()
                v = confirm(t, path, desc, msg, kind)
                if v:
                    v["output"] = tail if kind == "crash" else v["output"]
                    tot["violations"].append(v)
                    break
                tot["unconfirmed"] += 1
                tries += 1
                if t.rc not in (0, 1) and tries >= 2:
                    raise RuntimeError("shard %d (%s) ended with %s but the failure does not repeat: %s" % (t.shard, t.variant, t.rc, tail))
            if t.rc not in (0, 1):
                continue
            r = json.load(open(t.out + ".json"))
            for k in ("executions", "transitions", "checks", "pruned"):
                tot[k] += r[k]
            tot["per_variant"][t.variant] = tot["per_variant"].get(t.variant, 0) + r["executions"]
            for k, n in r["per_suite"].items():
                kk = t.variant + "/" + k
                tot["per_suite"][kk] = tot["per_suite"].get(kk, 0) + n
            if t.variant == exes[0][1]:
                tot["samples"] += r["samples"][:3]
            st.append(np.fromfile(t.out + ".states", dtype=np.uint64))
            oc.append(np.fromfile(t.out + ".outcomes", dtype=np.uint64))
            for v in r["violations"]:
                if len(tot["violations"]) >= 3:
                    break
                c = confirm(t, v["suite"] + ":" + v["path"], v["desc"], v["msg"], "fail")
                if c:
                    tot["violations"].append(c)
                else:
                    tot["unconfirmed"] += 1
        tot["states"] = int(np.unique(np.concatenate(st)).size) if st else 0
        tot["outcomes"] = int(np.unique(np.concatenate(oc)).size) if oc else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tot["samples"] = tot["samples"][:12]
    return tot


def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            if l.startswith("known: property=%s " % prop):
                m = l.strip().split(" ", 3)      # known: property=X case=<suite:path> text
                out.append((m[2].split("=", 1)[1], m[3]))
    except FileNotFoundError:
        pass
    return out


def main():
    a = sys.argv[1:]
    if a[:1] == ["--list"]:
        print("\n".join(CHECKS)); return 0
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        spec = CHECKS[r["property"]]
        if "setup" in spec:
            exes = {v: e for e, v, _ in spec["setup"](B)}
            exe = exes[r["variant"]]
        else:
            exe = B.build_harness(spec["harness"], r["variant"], **spec.get("build", {}))
        cmd = (exe if isinstance(exe, list) else [exe]) + r["args"]
        st, out = alone(cmd)
        print(out); print("replay:", st)
        return 0 if st == "ok" else 1
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    tot = collect(prop, tier)
    kf = known(prop)
    real, kn = [], []
    for v in tot["violations"]:
        hit = [k for k in kf if k[0] == v["path"]]
        (kn if hit else real).append(v)
    for case, text in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["transitions"], executions=tot["executions"],
               traces_validated_against_impl=tot["executions"], comparisons=tot["checks"], distinct_outcomes=tot["outcomes"],
               per_suite=tot["per_suite"], samples=tot["samples"], bounds=spec["bounds"].get(tier, spec["bounds"]["quick"]),
               exhaustive=not tot["violations"])
    if spec["level"] == "fault_enumeration":
        cov = dict(evaluations=tot["executions"], distinct_nontrivial=tot["states"], rule=spec["rule"], **{k: v for k, v in cov.items() if k not in ("states", "executions", "traces_validated_against_impl")})
    else:
        del cov["executions"]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec["assumptions"],
              wall_s=round(wall, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons, %d distinct outcomes, %.1f s" % (
        prop, tier, tot["executions"], tot["states"], tot["transitions"], tot["checks"], tot["outcomes"], wall))
    for k, n in sorted(tot["per_suite"].items()):
        print("   %-40s %d" % (k, n))
    if tot["unconfirmed"]:
        print("note: %d suspected failure(s) did not repeat and were dropped" % tot["unconfirmed"])
    for i, v in enumerate(real):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
        n = 1
        for exe_len in range(1, len(v["cmd"])):
            if v["cmd"][exe_len].startswith("--"):
                n = exe_len; break
        with open(rp, "w") as f:
            json.dump(dict(property=prop, variant=v["variant"], case=v["path"], args=v["cmd"][n:], desc=v["desc"], msg=v["msg"], kind=v["kind"], output=v["output"]), f, indent=1)
        print("  case  %s [%s] %s" % (v["path"], v["variant"], v["desc"]))
        print("  what  %s: %s" % (v["kind"], v["msg"]))
        if v["kind"] != "fail":
            print("  " + v["output"].strip().replace("\n", "\n  ")[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if real else 0


if __name__ == "__main__":
    try:
        rc = main()
    except B.BuildError as e:
        print("build failed:", e); rc = 2
    except RuntimeError as e:
        print("check error:", e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
