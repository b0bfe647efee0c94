"""C36: several runs at the same time, and other processes that change the tree, cost no entry its cleaning."""
import os, random, subprocess, threading, time

from lib import model as M, trees as T
from lib.core import Check, Hang, Violation, printable
from lib.trees import Snap, write_conf

SEQS = [lambda: M.shipped()[0], lambda: M.Sequence("s", M.SAFE_WIPE()), lambda: M.Sequence("s", [M.F("lower")]),
        lambda: M.Sequence("s", [M.F("safe", builtin="safe"), M.F("lower")]), lambda: M.shipped()[3]]


class Tree:
    """A tree in which every entry has a cleaned name of its own, that stays when cleaned again."""

    def __init__(self, case, seq, fanout, depth, rootname=b"root"):
        self.case, self.seq, self.rng = case, seq, case.rng
        self.top = os.fsencode(case.dir())
        self.want = {}          # inode -> cleaned path, relative to top
        self.old = {}           # inode -> path before
        self.dirs = []
        self.dirty = 0
        self.root = rootname
        self.mkdir(rootname, rootname if M.target(seq, rootname) == rootname else M.target(seq, rootname))
        self.fill(rootname, M.target(seq, rootname), fanout, depth)

    def add(self, p, g, kind):
        full = os.path.join(self.top, p)
        if kind == "dir":
            os.mkdir(full)
            self.dirs.append(p)
        else:
            with open(full, "wb") as f:
                f.write(p)
        i = os.lstat(full).st_ino
        self.want[i], self.old[i] = g, p
        self.dirty += os.path.basename(p) != os.path.basename(g)

    def mkdir(self, p, g):
        self.add(p, g, "dir")

    def fill(self, p, g, fanout, depth):
        rng, taken = self.rng, set()
        for _ in range(rng.randint(*fanout)):
            n = T.rand_name(rng)[:100]
            if rng.random() < 0.5:
                n = b"A %d&(%s)" % (rng.randint(0, 999), n[:20])
            if not n or n[:1] == b"." or b"/" in n or b"\0" in n or b"churn" in n.lower():
                continue
            t = M.target(self.seq, n)
            if t[:1] == b"." or n in M.SHIPPED_IGNORE or t in M.SHIPPED_IGNORE or M.target(self.seq, t) != t or len(t) > 200 or \
                    b"churn" in t.lower() or n in taken or t in taken or (t == n and rng.random() < 0.8):
                continue
            taken |= {n, t}
            kind = "dir" if depth > 0 and rng.random() < 0.3 else "file"
            self.add(os.path.join(p, n), os.path.join(g, t), kind)
            if kind == "dir":
                self.fill(os.path.join(p, n), os.path.join(g, t), fanout, depth - 1)

    def where(self):
        """inode -> paths relative to top"""
        out = {}
        for r, ds, fs in os.walk(self.top):
            for n in ds + fs:
                p = os.path.join(r, n)
                out.setdefault(os.lstat(p).st_ino, []).append(p[len(self.top) + 1:])
        return out

    def check(self, done, **detail):
        """Everything is there, once, with its contents, where it belongs (done: all of it cleaned)."""
        at = self.where()
        for i, g in self.want.items():
            p = at.get(i)
            if not p or len(p) != 1:
                raise Violation("identity", "%s is now at %s" % (printable(self.old[i]), printable(p)), **detail)
            p = p[0]
            full = os.path.join(self.top, p)
            if not os.path.isdir(full) and open(full, "rb").read() != self.old[i]:
                raise Violation("contents", "%s was altered" % printable(self.old[i]), **detail)
            if done and p != g:
                raise Violation("not-cleaned", "%s is now at %s, not at %s" % (printable(self.old[i]), printable(p), printable(g)), **detail)
            if not done:
                a, b, c = p.split(b"/"), g.split(b"/"), self.old[i].split(b"/")
                if len(a) != len(b) or any(x not in (y, z) for x, y, z in zip(a, b, c)):
                    raise Violation("wrong-place", "%s is now at %s" % (printable(self.old[i]), printable(p)), **detail)


class Runs:
    """Several runs at the same time, each with a log of its own."""

    def __init__(self, case, tree, conf, argvs, delay, mons=None):
        self.case, self.ps, self.logs, self.errs = case, [], [], []
        for k, a in enumerate(argvs):
            log = os.path.join(case.w.tmp, "tog%d.log" % k)
            if os.path.exists(log):
                os.unlink(log)
            self.logs.append(log)
            env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(case.scratch, "nohome"), "LC_ALL": "C", "LD_PRELOAD": case.bins["mon"],
                   "MON_DELAY": str(delay), "MON_PAUSE": str(case.rng.choice([1, 1, 10, delay])), "MON_LOG": log}
            env.update((mons or {}).get(k, {}))
            err = open(os.path.join(case.w.tmp, "tog%d.err" % k), "wb+")
            self.errs.append(err)
            self.ps.append(subprocess.Popen([case.bins["plain"], "-f", conf, "-s", "s", "-r"] + a, cwd=os.fsdecode(tree.top), env=env,
                                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err))
        case.count("executions", len(argvs))

    def wait(self, killed=()):
        end = time.monotonic() + self.case.timeout
        try:
            for p in self.ps:
                p.wait(timeout=max(0.1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            for p in self.ps:
                p.kill()
                p.wait()
            raise Hang("runs at the same time do not end")
        for k, p in enumerate(self.ps):
            if p.returncode < 0 and k not in killed:
                raise Violation("crash", "one of the runs was ended by signal %d" % -p.returncode)

    def renamed(self):
        """Who renamed what."""
        out = []
        for k, log in enumerate(self.logs):
            if not os.path.exists(log):
                continue
            for line in open(log, "rb"):
                p = line.split(b"|")
                if p[0].startswith(b"rename") and int(p[3]) == 0:
                    out.append((p[1], k))
                elif len(p) > 4 and int(p[3]) < 0:
                    self.case.count("calls_failed_because_of_another", 1)
        self.case.count("renames", len(out))
        return out

    def messages(self):
        out = []
        for f in self.errs:
            f.seek(0)
            out.append(f.read(3000))
            f.close()
        return out


def some(rng, tree):
    """Arguments that cover the tree."""
    r = rng.random()
    if r < 0.5:
        return ["--", tree.root]
    if r < 0.6:
        return ["--", tree.root, tree.root]
    if r < 0.75:
        return ["--", os.path.join(b".", tree.root)]
    inner = [os.path.join(tree.root, n) for n in sorted(os.listdir(os.path.join(tree.top, tree.root)))]
    rng.shuffle(inner)
    return ["--"] + inner + [tree.root]


def prepare(case, **kw):
    rng = case.rng
    seq = M.Sequence("s", rng.choice(SEQS)().filters)
    case.dir()
    conf = write_conf(case, seq)
    tree = Tree(case, seq, rootname=rng.choice([b"root", b"root", b"Ro ot (1)"]), **kw)
    return seq, conf, tree


def runs(case):
    """All of the tree is cleaned, by whichever run comes first."""
    rng = case.rng
    shape = rng.choice([dict(fanout=(4, 14), depth=2), dict(fanout=(2, 5), depth=5), dict(fanout=(60, 200), depth=0), dict(fanout=(1, 6), depth=3)])
    seq, conf, tree = prepare(case, **shape)
    n = rng.choice([2, 2, 3, 4, 6])
    delay = rng.choice([1, 20, 100, 300]) if len(tree.want) < 100 else rng.choice([1, 20])
    argvs = [some(rng, tree) for _ in range(n)]
    rr = Runs(case, tree, conf, argvs, delay)
    rr.wait()
    who = rr.renamed()
    tree.check(True, runs=argvs, messages=rr.messages(), renamed=who[:60])
    finish(case, tree, who, n)


def finish(case, tree, who, n):
    by = {k for _, k in who}
    if len(by) > 1:
        case.count("trees_cleaned_by_several_runs")
    case.count("entries", len(tree.want))
    case.seen("divisions", tuple(sorted(who)))
    if tree.dirty > 1:
        case.note((sorted(tree.old.values()), sorted(who)), dict(entries=len(tree.want), runs=n, renamed_by=sorted((sum(1 for _, x in who if x == k)) for k in by)))


def killed(case):
    """One of the runs is killed on its way; a later run brings the rest to its end."""
    rng = case.rng
    seq, conf, tree = prepare(case, fanout=(3, 10), depth=rng.choice([1, 2, 3]))
    n = rng.choice([2, 3])
    argvs = [some(rng, tree) for _ in range(n)]
    rr = Runs(case, tree, conf, argvs, rng.choice([1, 50, 200]), {0: {"MON_KILL": str(rng.randint(1, 6 * len(tree.want) + 5))}})
    rr.wait(killed=(0,))
    who = rr.renamed()
    tree.check(False, runs=argvs, messages=rr.messages(), renamed=who[:60])
    case.count("runs_killed", rr.ps[0].returncode == -9)
    r = case.run(["-f", conf, "-s", "s", "-r", "."], cwd=os.fsdecode(tree.top))
    # the configuration lies in the same directory: its name is clean
    tree.check(True, runs=argvs, stderr=r.err, renamed=who[:60])
    finish(case, tree, who, n)


class Churn(threading.Thread):
    """Other processes at work: they add, rename, move and remove entries of their own in the directories of the tree."""

    def __init__(self, tree, seed, pause):
        super().__init__(daemon=True)
        self.rng, self.pause = random.Random(seed), pause
        self.fds = [os.open(os.path.join(tree.top, d), os.O_RDONLY | os.O_DIRECTORY) for d in tree.dirs[:200]]
        self.mine = {}          # name -> (directory descriptor, inode, is a directory)
        self.count, self.stop, self.error = 0, False, None

    def run(self):
        try:
            while not self.stop:
                self.step()
                if self.pause:
                    time.sleep(self.pause * self.rng.random())
        except Exception as e:
            self.error = e

    def step(self):
        rng = self.rng
        self.count += 1
        fd = rng.choice(self.fds)
        name = b"Churn %d (%d)" % (self.count, rng.randint(0, 9)) if rng.random() < 0.7 else b"churn_%d" % self.count
        r = rng.random()
        if r < 0.45 or not self.mine:
            isdir = rng.random() < 0.3
            if isdir:
                os.mkdir(name, dir_fd=fd)
                try:
                    i = os.lstat(os.path.join(b"/proc/self/fd/%d" % fd, name)).st_ino
                except OSError:
                    return
            else:
                f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o644, dir_fd=fd)
                i = os.fstat(f).st_ino
                os.close(f)
            self.mine[name] = (fd, i, isdir)
            return
        old = rng.choice(list(self.mine))
        ofd, i, isdir = self.mine[old]
        try:
            if r < 0.75:
                os.rename(old, name, src_dir_fd=ofd, dst_dir_fd=fd)
                del self.mine[old]
                self.mine[name] = (fd, i, isdir)
            else:
                (os.rmdir if isdir else os.unlink)(old, dir_fd=ofd)
                del self.mine[old]
        except OSError:
            pass            # a run was there first

    def close(self):
        for fd in self.fds:
            os.close(fd)


def changing(case):
    """While other entries come and go, those that stay are cleaned."""
    rng = case.rng
    seq, conf, tree = prepare(case, **rng.choice([dict(fanout=(4, 14), depth=2), dict(fanout=(40, 90), depth=0), dict(fanout=(2, 5), depth=4)]))
    n = rng.choice([1, 1, 2])
    argvs = [some(rng, tree) for _ in range(n)]
    ch = Churn(tree, rng.random(), rng.choice([0.0001, 0.0005, 0.002]))
    ch.start()
    try:
        time.sleep(rng.choice([0, 0.003]))
        rr = Runs(case, tree, conf, argvs, rng.choice([1, 50, 200]))
        rr.wait()
    finally:
        ch.stop = True
        ch.join(20)
        ch.close()
    if ch.error:
        raise ch.error
    who = rr.renamed()
    tree.check(True, runs=argvs, messages=rr.messages(), renamed=who[:60])
    at = tree.where()
    for name, (fd, i, isdir) in ch.mine.items():
        if i not in at:
            raise Violation("identity", "%s of another process is gone" % printable(name), runs=argvs, messages=rr.messages())
    case.count("changes_by_others", ch.count)
    finish(case, tree, who, n)


def stolen(case):
    """An entry of another process disappears, moves or is replaced just before a call that looks at it."""
    rng = case.rng
    seq, conf, tree = prepare(case, **rng.choice([dict(fanout=(4, 14), depth=2), dict(fanout=(10, 40), depth=0), dict(fanout=(2, 6), depth=4)]))
    k = 0
    for d in tree.dirs:
        for _ in range(rng.choice([0, 1, 2, 5])):
            k += 1
            p = os.path.join(tree.top, d, rng.choice([b"Churn %d (x)", b"churn_%d", b"churn_%d.d"]) % k)
            r = rng.random()
            if r < 0.5:
                open(p, "wb").close()
            else:
                os.mkdir(p)
                if r < 0.8:
                    for j in range(rng.randint(1, 3)):
                        open(os.path.join(p, b"in side %d" % j), "wb").close()
    argv = some(rng, tree)
    r = case.run(["-f", conf, "-s", "s", "-r"] + argv, cwd=os.fsdecode(tree.top), mon={"MON_STEAL": str(rng.randint(1, 1 << 30))})
    done = [e for e in r.events if e.name == "steal"]
    if r.rc < 0:
        raise Violation("crash", "the run was ended by signal %d" % -r.rc, arguments=argv, stolen=done[:40], stderr=r.err[-800:])
    tree.check(True, arguments=argv, stolen=done[:40], stderr=r.err[:2000])
    case.count("entries_stolen", len(done))
    case.count("entries", len(tree.want))
    for e in done:
        i = r.events.index(e)
        case.seen("windows", (r.events[i - 1].name if i else "", r.events[i + 1].name if i + 1 < len(r.events) else "", e.ret))
    if done:
        case.note((sorted(tree.old.values()), [(e.a, e.ret) for e in done]))


class C36(Check):
    prop = "C36"
    technique = "runtime monitoring: runs at the same time with injected delays and kills, and processes that change the tree, against the tree of one undisturbed run"
    rule = "distinct trees with a division of the work between the runs"
    need_mon = True
    parts = [("runs", runs, 400, 6000), ("killed", killed, 160, 2400), ("changing", changing, 300, 4500), ("stolen", stolen, 500, 8000)]


CHECKS = [C36]
