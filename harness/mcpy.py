"""The choice-point explorer of mc.hpp for drivers written in Python (same command line, same files)."""
import hashlib, json, mmap, os, struct, sys, traceback


class Skip(Exception):
    pass


class Prune(Exception):
    pass


class Violation(Exception):
    pass


class G:
    shard, nshards, thorough, variant, only, out, journal = 0, 1, False, "prod", "", "", None
    replay = None
    executions = transitions = checks = pruned = skipped = 0
    states, outcomes, samples, viols, per_suite = set(), set(), [], [], {}


def h64(*a):
    return struct.unpack("<Q", hashlib.blake2b(repr(a).encode(), digest_size=8).digest())[0]


def init(argv):
    i = 0
    while i < len(argv):
        a = argv[i]; v = argv[i + 1]; i += 2
        if a == "--shard":
            G.shard, G.nshards = map(int, v.split("/"))
        elif a == "--tier":
            G.thorough = v == "thorough"
        elif a == "--variant":
            G.variant = v
        elif a == "--suite":
            G.only = v
        elif a == "--out":
            G.out = v
        elif a == "--journal":
            fd = os.open(v, os.O_RDWR | os.O_CREAT, 0o600)
            os.ftruncate(fd, 65536)
            G.journal = mmap.mmap(fd, 65536)
        elif a == "--replay":
            G.only, _, p = v.partition(":")
            G.replay = [int(x) for x in p.split(",") if x]
        else:
            print("bad arg", a); os._exit(3)


class Ctx:
    def __init__(self, suite):
        self.suite, self.path, self.width, self.pos, self.begun, self.desc = suite, [], [], 0, False, ""

    def choose(self, n):
        if G.replay is not None:
            c = G.replay[self.pos] if self.pos < len(G.replay) else 0
            if c >= n:
                print("replay divergence"); os._exit(3)
            self.path.append(c); self.width.append(n)
        elif self.pos < len(self.path):
            c = self.path[self.pos]
            if self.width[self.pos] != n:
                print("nondeterministic driver in", self.suite); os._exit(3)
        else:
            c = 0
            self.path.append(0); self.width.append(n)
        self.pos += 1
        if self.begun:
            self.write()
        return c

    def flip(self):
        return self.choose(2) == 1

    def pick(self, l):
        return l[self.choose(len(l))]

    def pathstr(self):
        return ",".join(map(str, self.path[:self.pos]))

    def begin(self, desc):
        self.desc = desc
        if not self.begun:
            self.begun = True
            if G.replay is None and h64(self.path[:self.pos]) % G.nshards != G.shard:
                G.skipped += 1
                raise Skip()
        self.write()

    def write(self):
        j = G.journal
        if j is None:
            return
        c = struct.unpack("<Q", j[:8])[0] + 1
        j[:8] = struct.pack("<Q", c)
        s = (self.suite + ":" + self.pathstr()).encode()[:30000] + b"\n\0"
        j[8:8 + len(s)] = s
        d = self.desc.encode("ascii", "replace")[:30000] + b"\0"
        j[32768:32768 + len(d)] = d

    def note(self, t):
        self.desc += t
        self.write()

    def step(self, n=1):
        G.transitions += n

    def check(self, n=1):
        G.checks += n

    def state(self, *a):
        G.states.add(h64(self.suite, a))

    def outcome(self, *a):
        G.outcomes.add(h64(self.suite, a))

    def fail(self, msg):
        raise Violation(msg)


def explore(name, body, maxviol=3):
    if G.only and G.only != name:
        return
    c = Ctx(name)
    e0 = G.executions
    while True:
        c.pos, c.begun, c.desc = 0, False, ""
        if G.replay is not None:
            c.path, c.width = [], []
        try:
            body(c)
            G.executions += 1
            if len(G.samples) < 6 and G.executions & (G.executions - 1) == 0:
                G.samples.append(name + ": " + c.desc)
        except Skip:
            pass
        except Prune:
            G.pruned += 1
        except Violation as v:
            G.executions += 1
            G.viols.append(dict(suite=name, path=c.pathstr(), msg=str(v), desc=c.desc))
            if len(G.viols) >= maxviol:
                break
        except Exception:
            traceback.print_exc()
            print("driver error in", name, c.pathstr(), c.desc); sys.stdout.flush(); os._exit(3)
        if G.replay is not None:
            break
        del c.path[c.pos:], c.width[c.pos:]
        while c.path and c.path[-1] + 1 >= c.width[-1]:
            c.path.pop(); c.width.pop()
        if not c.path:
            break
        c.path[-1] += 1
    G.per_suite[name] = G.executions - e0


def finish():
    if G.out:
        json.dump(dict(executions=G.executions, transitions=G.transitions, checks=G.checks, skipped=G.skipped, pruned=G.pruned,
                       states=len(G.states), outcomes=len(G.outcomes), per_suite=G.per_suite, samples=G.samples, violations=G.viols), open(G.out + ".json", "w"))
        for n, s in ((".states", G.states), (".outcomes", G.outcomes)):
            with open(G.out + n, "wb") as f:
                for x in s:
                    f.write(struct.pack("<Q", x))
    for v in G.viols:
        print("FAIL %s:%s\n  case: %s\n  what: %s" % (v["suite"], v["path"], v["desc"], v["msg"]))
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(1 if G.viols else 0)
