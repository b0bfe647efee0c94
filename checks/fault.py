"""C03, C10, C11, C13, C14: runs disturbed by another process, failing calls, a kill, failing allocations, limits."""
import errno, os, random, shutil, socket, stat, subprocess

from lib import build as B, model as M, trees as T
from lib.core import Check, Hang, HarnessError, Violation, printable
from lib.trees import Plan, Run, Snap, Spec, build, judge, options, rand_sequence, write_conf
from checks.tree import One


def lookup(path, cwd_ino, top, before, after):
    """-> set of (dir inode, name) a path used in a call may mean."""
    p = T.norm(path)
    if p.endswith(b"/") and len(p) > 1:
        p = p[:-1]
    d, _, n = p.rpartition(b"/")
    if p.startswith(b"/") and not d:
        d = b"/"
    return {(x, n) for x in T.resolve_dirs(d or b".", cwd_ino, top, before, after)}


# ---------------------------------------------------------------- C03

def c03(case):
    rng = case.rng
    kind = ["file", "dir", "link", "fifo"][case.index % 4]
    when = "rename" if case.index // 4 % 2 else "lstat"
    n = rng.choice([1, 1, 2, 3, 4, 6, 9])
    one = One(case, Spec(collide=0.3, hard=0, escapes=0.02), mon={"MON_RACE": "%s:%d:%s" % (when, n, kind)})
    races = [e for e in one.res.events if e.name == "race" and e.ret == 0]
    extra, place = set(), None
    try:
        for e in races:
            c = lookup(e.a, one.plan.cwd_ino, one.top, one.before, one.after)
            hit = [(d, nm) for d, nm in c if one.after.dirs.get(d, {}).get(nm) is not None
                   and one.after.dirs[d][nm] not in one.before.meta]
            if not hit:
                raise Violation("intruder-replaced", "the entry another process created at %s is gone from there" %
                                printable(e.a))
            ino = one.after.dirs[hit[0][0]][hit[0][1]]
            extra.add(ino)
            m = one.after.meta[ino]
            want = {"file": (stat.S_IFREG, b"intruder"), "dir": (stat.S_IFDIR, None), "link": (stat.S_IFLNK, b"nowhere"),
                    "fifo": (stat.S_IFIFO, None)}[kind]
            if (m[0], m[5]) != want or (kind == "dir" and one.after.dirs[ino]):
                raise Violation("intruder-altered", "the entry of the other process became %s" % printable(m))
    except Violation as v:
        raise one.detail(v)
    one.judge({"identity", "clean", "complete"}, extra=extra)
    case.count("entries_created_in_the_window", len(races))
    if races:
        case.seen("windows", (when, kind, n))
    one.note(races)


def c03_concurrent(case):
    """Several detox processes on one tree."""
    rng = case.rng
    seq = M.Sequence("s", rng.choice(M.shipped()[:1] + M.shipped()[3:6]).filters)
    case.dir()
    conf = write_conf(case, seq)
    sp = Spec(collide=0.5, hard=0, fanout=(6, 16), depth=1, dirs=0.15, hidden=0.02, ignored=0)
    sp.seq = seq
    top, root, g = build(case, sp)
    before = Snap(top)
    env = {"PATH": "/usr/bin:/bin", "HOME": case.scratch, "LC_ALL": "C", "LD_PRELOAD": case.bins["mon"],
           "MON_DELAY": str(rng.choice([1, 50, 400]))}
    n = rng.choice([2, 3, 4])
    ps, logs = [], []
    # half of the time one of them works on the entries backwards
    rootino = before.dirs[before.top][b"root"]
    for k in range(n):
        log = os.path.join(case.w.tmp, "conc%d.log" % k)
        if os.path.exists(log):
            os.unlink(log)
        logs.append(log)
        names = sorted(before.dirs[rootino], reverse=bool(k % 2))
        names = [x for x in names if not x.startswith(b".") and stat.S_ISREG(before.type[before.dirs[rootino][x]])]
        argv = [case.bins["plain"], "-r", "-f", conf, "-s", "s", "--"]
        argv += [b"root/" + x for x in names] if rng.random() < 0.5 and names else [b"root"]
        ps.append(subprocess.Popen(argv, cwd=os.fsdecode(top), env=dict(env, MON_LOG=log), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    case.count("executions", n)
    try:
        for p in ps:
            p.communicate(timeout=case.timeout)
    except subprocess.TimeoutExpired:
        for p in ps:
            p.kill()
            p.wait()
        raise Hang("concurrent runs do not end")
    after = Snap(top)
    if any(p.returncode < 0 for p in ps):
        raise Violation("crash", "a concurrent run was ended by a signal")
    T.check_identity(before, after)
    for d, ino, olds, news in T.moves(before, after):
        if ino is None:
            continue
        if len(olds) != 1 or len(news) != 1:
            raise Violation("left-directory", "%s became %s" % (printable(olds), printable(news)))
        ok, x = [olds[0]], olds[0]
        for _ in range(n):
            x = M.target(seq, x)
            ok.append(x)
        if news[0] not in ok:
            raise Violation("wrong-name", "%s became %s" % (printable(olds), printable(news)))
    lost_races, order = 0, []
    for k, log in enumerate(logs):
        for line in open(log, "rb"):
            p = line.split(b"|")
            if p[0].endswith((b"rename", b"rename2", b"renameat2", b"rename")) and int(p[3]) < 0 and int(p[4]) == errno.EEXIST:
                lost_races += 1
    case.count("renames_refused_by_the_kernel", lost_races)
    case.count("concurrent_runs", n)
    if sum(len(v) for v in before.dirs.values()) > 3:
        case.note(sorted(x for es in before.dirs.values() for x in es))


class C03(Check):
    prop = "C03"
    technique = "runtime monitoring: another process injected at the rename window, concurrent runs"
    rule = "distinct trees in which an entry was created at a destination during the run, or worked on concurrently"
    need_mon = True
    level = "fault_enumeration"
    parts = [("window", c03, 2000, 26000), ("concurrent", c03_concurrent, 240, 3000)]


# ---------------------------------------------------------------- C10

CLASSES = [("lstat", [errno.EIO, errno.EACCES, errno.ENOENT, errno.ESTALE, errno.ENOTDIR, errno.ENOMEM, errno.EOVERFLOW]),
           ("rename", [errno.EIO, errno.EACCES, errno.EPERM, errno.EXDEV, errno.ENOSPC, errno.EROFS, errno.ENOENT,
                       errno.EBUSY, errno.EINVAL, errno.ENOSYS, errno.EEXIST]),
           ("opendir", [errno.EACCES, errno.EIO, errno.ENOENT, errno.ENOMEM, errno.ENOTDIR, errno.ENFILE]),
           ("readdir", [errno.EIO, errno.EBADF, errno.ENOENT]),
           ("closedir", [errno.EIO, errno.EBADF, errno.EINTR])]


def faulted(one):
    """Entries that failing calls concerned: exact (dir, name) pairs and directories read in vain."""
    pairs, dirs, opened = set(), set(), []
    last = None
    named = []
    for e in one.res.events:
        if e.name == "opendir" and e.ret == 0:
            opened.append(e.a)
        if e.name.startswith("injected-"):
            what = e.name[9:]
            named.append((what, e.a, e.b))
            if what in ("readdir", "closedir"):
                for p in opened:
                    pass
                if opened:
                    for d, n in lookup(opened[-1], one.plan.cwd_ino, one.top, one.before, one.after):
                        dirs |= dirs_at(one, opened[-1])
            else:
                for p in (e.a, e.b):
                    if p and what != "fopen":
                        pairs |= lookup(p, one.plan.cwd_ino, one.top, one.before, one.after)
                        if what == "opendir" or "stat" in what or "access" in what:
                            dirs |= dirs_at(one, p)
        if e.name == "closedir" and opened:
            opened.pop()
    return pairs, dirs, named


def delivered(one):
    """Entries of the directory whose reading failed that had been returned by then."""
    opened, got = [], {}
    for e in one.res.events:
        if e.name == "opendir" and e.ret == 0:
            opened.append(e.a)
            got[len(opened)] = []
        elif e.name == "closedir" and opened:
            opened.pop()
        elif e.name == "readdir" and e.a and opened:
            got[len(opened)].append(e.a)
        elif e.name == "injected-readdir" and opened:
            ds = dirs_at(one, opened[-1])
            return {(d, n) for d in ds for n in got[len(opened)] if n in one.before.dirs.get(d, {})} if len(ds) == 1 else set()
    return set()


def dirs_at(one, path):
    return T.resolve_dirs(path, one.plan.cwd_ino, one.top, one.before, one.after)


def below(snap, dirs):
    out, todo = set(), list(dirs)
    while todo:
        d = todo.pop()
        if d in out or d not in snap.dirs:
            continue
        out.add(d)
        todo += [i for i in snap.dirs[d].values() if i in snap.dirs]
    return out


def c10(case):
    rng = case.rng
    cls, errs = CLASSES[case.index % len(CLASSES)]
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15, 20, 28])
    err = rng.choice(errs)
    # (only built-in tables: a table file that cannot be read ends the whole run)
    one = One(case, Spec(collide=0.25, hard=0.03, fanout=(2, 9)), seq=rand_sequence(rng, case, tables=False),
              mon={"MON_FAIL": "%s:%d:%d" % (cls, n, err)}, verbose=False)
    pairs, dirs, named = faulted(one)
    # a failing path may name the entry or its destination: both are concerned
    touched = set(pairs)
    for key in one.run.scope:
        t = one.run.target(key)
        if t is not None and (key[0], t) in pairs:
            touched.add(key)
    for k in touched:
        i = one.before.dirs.get(k[0], {}).get(k[1])
        if i in one.before.dirs:
            dirs.add(i)
    sub = below(one.before, dirs)
    told = delivered(one) if cls == "readdir" else set()
    for key in told & set(one.run.scope) - touched:
        # what had been read before the directory failed is processed
        i = one.before.dirs[key[0]][key[1]]
        if i in one.before.dirs and not below(one.before, [i]) & dirs:
            sub -= below(one.before, [i])
    one.judge({"identity", "scope", "clean", "complete"}, exempt=lambda key: key not in told and (key in touched or key[0] in sub))
    if named:
        what = named[0][0]
        report = what == "opendir" or "rename" in what or (what == "readdir" and err in (errno.EIO, errno.EBADF))
        if "stat" in what:
            # of an argument: the path is literally one of them
            report = named[0][1] in [a if isinstance(a, bytes) else os.fsencode(a) for a in one.plan.argv]
            # (unless it is also the destination of another)
            report = report and not any((k[0], one.run.target(k)) in pairs for k in one.run.scope if one.run.target(k))
        if what == "opendir" and err == errno.ENOTDIR:
            report = False      # it is not a directory any more
        if what.startswith("rename") and err in (errno.EINVAL, errno.ENOSYS):
            report = False      # the system does not support the call: another may be used
        if report and not one.res.err.strip():
            raise one.detail(Violation("not-reported", "%s failed (%s) and nothing was reported" % (
                printable(named[0][:2]), errno.errorcode[err])))
        case.seen("faults", (what, err, n))
        case.count("faults_injected")
    one.note(named and one.run.facts["scope"])


def c10_natural(case):
    """Failures without injection: missing arguments, permissions, names too long."""
    rng = case.rng
    bad = {}

    def prepare(o):
        ds = [os.path.join(r, d) for r, dd, _ in os.walk(o.root) for d in dd if not os.path.islink(os.path.join(r, d))]
        rng.shuffle(ds)
        for p in ds[:rng.choice([0, 1, 1, 2, 3])]:
            bad[os.lstat(p).st_ino] = mode = rng.choice([0o000, 0o555, 0o444, 0o333, 0o111])
        o.bad = bad
        o.paths = {os.lstat(p).st_ino: p for p in ds}
    seq = rng.choice([None, M.Sequence("s", [M.F("iso8859_1", builtin="iso8859_1")]), M.Sequence("s", M.SAFE_WIPE())])

    class Two(One):
        pass
    spec = Spec(collide=0.2, hard=0, fanout=(2, 8), dirmodes=0)
    # like One, but permissions are taken away after the snapshot, and given back before the next
    case.dir()
    o = Two.__new__(Two)
    o.case = case
    o.seq = spec.seq = seq or rand_sequence(rng, case)
    o.ignore = [b"{arch}"]
    conf = write_conf(case, o.seq, o.ignore)
    o.top, o.root, o.gen = build(case, spec)
    prepare(o)
    o.before = Snap(o.top)
    plan = o.plan = Plan(case, o.top, o.root, o.before, o.seq, rng.choice(["rel", "entries", "entries", "entries-here", "abs"]))
    special = rng.random() < 0.3
    o.run = Run(o.before, o.seq, plan.args, True, special, o.ignore)
    argv = list(plan.argv)
    missing = []
    for _ in range(rng.choice([0, 1, 2])):
        m = rng.choice([b"missing %d", b"root/not there %d", b"no dir/x %d", b"root\n%d"]) % rng.randint(0, 99)
        if T.lookup_free(o.before, m):
            missing.append(m)
            argv.insert(rng.randint(0, len(argv)), m)
    o.argv = ["-r", "-f", conf, "-s", o.seq.name] + (["--special"] if special else []) + ["--"] + argv
    order = sorted(bad, key=lambda i: -len(o.paths[i]))
    for i in order:
        os.chmod(o.paths[i], bad[i])
    o.res = case.run(o.argv, cwd=os.fsdecode(plan.cwd))
    # names may have changed: find the directories again from the top, opening each as we get there
    restore(o.top, set(bad))
    o.after = Snap(o.top)
    if o.res.signal:
        raise o.detail(Violation("crash", "ended by signal %d" % o.res.signal))
    sub = below(o.before, [d for d in bad if bad[d] & 0o500 != 0o500 or not bad[d] & 0o100])
    noren = {d for d in bad}
    o.judge({"identity", "scope", "clean", "complete"}, exempt=lambda key: key[0] in noren or key[0] in sub)
    for m in missing:
        if m.split(b"\n")[0] not in o.res.err:
            raise o.detail(Violation("not-reported", "missing argument %s was not reported" % printable(m)))
    case.count("natural_failures", len(bad) + len(missing))
    o.note(bad or missing)


def c10_inline(case):
    """Inline mode over files of which some cannot be read."""
    rng = case.rng
    seq = rand_sequence(rng, case, tables=False)
    d = case.dir()
    conf = write_conf(case, seq)
    argv, want, failing = [], b"", []
    kinds = set()
    for k in range(rng.choice([1, 2, 3, 5, 9])):
        kind = rng.choice(INPUTS)
        data = b"".join(T.rand_name(rng) + b"\n" for _ in range(rng.randint(0, 4))) if kind in ("good", "link") else b"hidden (1)\n"
        name = odd_input(d, kind, k, data)
        p = os.path.join(os.fsencode(d), name)
        if kind in ("good", "link"):
            want += M.inline(seq, data)
        else:
            failing.append(name)
        kinds.add(kind)
        argv.append(rng.choice([name, b"./" + name, p if kind != "below" else name]) if kind != "mem" else name)
    r = case.run(["--inline", "-f", conf, "-s", "s"] + argv, cwd=d, log=True)
    if r.signal:
        raise Violation("crash", "ended by signal %d" % r.signal, argv=argv, stderr=r.err)
    if r.out != want:
        raise Violation("disturbed", "the output is not that of the readable files", argv=argv, stdout=r.out[:1500], expected=want[:1500],
                        stderr=r.err, sequence=seq.conf())
    for n in failing:
        if n not in r.err:
            raise Violation("not-reported", "%s could not be read and was not reported" % printable(n), argv=argv, stderr=r.err)
    case.count("inline_failures", len(failing))
    if failing and len(kinds) > 1:
        case.note((seq.conf(), argv, want))


def c10_many(case):
    """Many failures in one run, then everything else."""
    rng = case.rng
    d = case.dir()
    top = os.path.join(os.fsencode(d), b"top")
    os.mkdir(top)
    seq = M.Sequence("s", M.SAFE_WIPE())
    conf = write_conf(case, seq, [])
    big = [300, 700, 3000] if case.tier == "thorough" else [300]
    amount = lambda: rng.choice([0, 0, 3, 12, 30, 70, 130, 260] + big)
    inline = rng.random() < 0.25
    want, argv, blame, locked, silent = {}, [], [], [], 0

    def place(rel, content=b"", new=None):
        os.makedirs(os.path.dirname(os.path.join(top, rel)), exist_ok=True)
        with open(os.path.join(top, rel), "wb") as f:
            f.write(content)
        want[new or rel] = content

    def good(k):
        n = b"Good (%d) x" % k
        place(n, n, None if inline else seq.run(n))
        argv.append(n)

    good(0)
    kinds = {}
    for kind in rng.sample(["missing", "below", "read-only", "locked", "taken"], 5)[:rng.choice([1, 1, 2, 3, 5])]:
        n = kinds[kind] = amount()
        if kind in ("missing", "below") or inline:
            for k in range(n):
                argv.append((b"no such (%d)" if kind != "below" else b"Good (0) x/no (%d)") % k)
                blame.append(argv[-1])
        elif kind == "read-only":
            for k in range(n):
                place(b"ro/a (%d)" % k, b"%d" % k)
                blame.append(b"ro/a (%d)" % k)
            if n:
                locked.append((b"ro", 0o555))
                argv.append(b"ro")
        elif kind == "locked":
            for k in range(n):
                place(b"many/d (%d)/in (x)" % k, b"%d" % k, b"many/" + seq.run(b"d (%d)" % k) + b"/in (x)")
                locked.append((b"many/d (%d)" % k, 0o333))
                silent += 1         # (its name need not be told)
            if n:
                argv.append(b"many")
        else:
            for k in range(n):
                o = b"t (%d)" % k
                place(b"taken/" + o, b"old %d" % k)
                place(b"taken/" + seq.run(o), b"there %d" % k)
                blame.append(b"taken/" + o)
            if n:
                argv.append(b"taken")
        good(len(argv))
    for rel, mode in locked:
        os.chmod(os.path.join(top, rel), mode)
    if "below" in kinds and not inline:
        # (its name goes with the first argument)
        argv.append(argv.pop(0))
    r = case.run((["--inline"] if inline else ["-r"]) + ["-f", conf, "-s", "s", "--"] + argv, cwd=os.fsdecode(top), log=False)
    for root, ds, _ in os.walk(top):
        for n in ds:
            os.chmod(os.path.join(root, n), 0o755)
    got = {}
    for root, _, fs in os.walk(top):
        for n in fs:
            q = os.path.join(root, n)
            got[os.path.relpath(q, top)] = open(q, "rb").read()
    info = dict(failing=kinds, arguments=argv[:20], stderr=r.err[-1500:], status=r.rc)
    if r.signal:
        raise Violation("crash", "ended by signal %d" % r.signal, **info)
    if inline:
        w = b"".join(M.inline(seq, want[a]) for a in argv if a in want)
        if r.out != w:
            raise Violation("disturbed", "the output is not that of the readable files", stdout=r.out[:1500], expected=w[:1500], **info)
    if got != want:
        raise Violation("disturbed", "after %s failing entries %s instead of %s" % (kinds, printable(sorted(got.items() - want.items())[:4]),
                                                                                    printable(sorted(want.items() - got.items())[:4])), **info)
    lost = [b for b in blame if b not in r.err]
    if not lost and r.err.count(b"\n") < len(blame) + silent:
        raise Violation("not-reported", "%d lines on standard error for %d failures" % (r.err.count(b"\n"), len(blame) + silent), **info)
    if lost:
        raise Violation("not-reported", "%d of %d failures were not reported, like %s" % (len(lost), len(blame), printable(lost[0])), **info)
    case.count("failures_in_one_run", len(blame) + silent)
    case.seen("amounts", len(blame) + silent)
    if blame or silent:
        case.note((sorted(kinds.items()), inline, argv[:4]))


def restore(top, inodes):
    """Give back the permissions taken from some directories."""
    todo = [top]
    while todo:
        d = todo.pop()
        st = os.lstat(d)
        if st.st_ino in inodes:
            os.chmod(d, 0o755)
        for e in os.scandir(d):
            if e.is_dir(follow_symlinks=False):
                todo.append(e.path)


class C10(Check):
    prop = "C10"
    technique = "runtime monitoring: single system call failures injected, outcome judged per entry"
    rule = "distinct trees in which a call of the run failed (injected, or missing argument or permission)"
    need_mon = True
    level = "fault_enumeration"
    parts = [("inject", c10, 2400, 30000), ("natural", c10_natural, 500, 6000), ("inline", c10_inline, 400, 5000), ("many", c10_many, 120, 1500)]


# ---------------------------------------------------------------- C11

def c11(case):
    """Kill one run at every one of its file system calls (each time on a fresh copy of the tree)."""
    rng = case.rng
    stable = [s for s in M.shipped() if s.name in ("default", "lower", "utf_8", "lower-only")]
    seq = M.Sequence("s", rng.choice(stable).filters) if rng.random() < 0.7 else rand_sequence(rng, case, tables=False)
    seedstr = repr(rng.random())
    crowded = rng.random() < 0.4
    recurse = rng.random() < 0.8
    sp = Spec(depth=rng.choice([1, 2]), fanout=(1, 5), collide=0.4 if crowded else 0, hard=0.1 if crowded else 0,
              specials=0.2, dirs=0.35, longs=0)

    def fresh():
        case.fresh()
        r, case.rng = case.rng, random.Random(seedstr)
        sp.seq = seq
        conf = write_conf(case, seq, [b"{arch}"])
        top, root, g = build(case, sp)
        before = Snap(top)
        case.rng = r
        return conf, top, root, before

    def go(conf, top, mon):
        argv = (["-r"] if recurse else []) + ["--special", "-f", conf, "-s", "s", b"root"]
        return case.run(argv, cwd=os.fsdecode(top), mon=mon, log=False)

    conf, top, root, before = fresh()
    r = go(conf, top, {})
    total = len([e for e in r.events])
    done = Snap(top)
    full = Run(before, seq, [(before.top, b"root")], recurse, True, [b"{arch}"])
    judge(full, done, {"identity", "clean", "complete"})
    # is the outcome of the whole run unique, and would running again leave it alone?
    targets = {}
    unique = True
    for key in full.scope:
        t = full.target(key)
        if t is not None and (t in before.dirs[key[0]] or (key[0], t) in targets or len(t) > 255 or M.target(seq, t) != t):
            unique = False
        targets[(key[0], t if t is not None else key[1])] = key
        if t is None and M.target(seq, key[1]) != key[1]:
            unique = False
        if t is not None and t != key[1] and (t.startswith(b".") or t in full.ignore):
            unique = False      # the second run passes it over under its new name
    points = [s * k for k in range(1, total + 1) for s in (1, -1)]
    if len(points) > 400:
        points = sorted(rng.sample(points, 400))
    states = set()
    shape = lambda s: shape_of(s, s.top)
    final = shape(done)
    for n in points:
        conf, top, root, before = fresh()
        r = go(conf, top, {"MON_KILL": str(n)})
        after = Snap(top)
        run = Run(before, seq, [(before.top, b"root")], recurse, True, [b"{arch}"])
        try:
            judge(run, after, {"identity", "clean", "scope"})
            for d, ino, olds, news in T.moves(before, after):
                if ino is None or len(olds) != len(news):
                    raise Violation("left-directory", "%s became %s" % (printable(olds), printable(news)))
        except Violation as v:
            v.detail.update(kill=n, sequence=seq.conf(), stderr=r.err)
            raise
        case.count("killed_runs", int(r.rc == -9))
        st = shape(after)
        states.add(st)
        if unique:
            name = [x for x, i in after.dirs[after.top].items() if i == before.dirs[before.top][b"root"]][0]
            argv = (["-r"] if recurse else []) + ["--special", "-f", conf, "-s", "s", name]
            r2 = case.run(argv, cwd=os.fsdecode(top), log=False)
            again = Snap(top)
            if shape(again) != final:
                raise Violation("rerun", "running again after a kill at call %d does not reach the tree of a whole run" % n,
                                killed=printable(st), rerun=printable(shape(again)), whole=printable(final), sequence=seq.conf())
            case.count("reruns_compared")
    case.count("kill_points", len(points))
    case.count("intermediate_states", len(states))
    case.evals = len(points)
    if len(states) > 1:
        for s in states:
            case.note((seedstr, s))


def shape_of(s, d):
    """Directory structure by names, types and contents."""
    out = []
    for n, i in sorted(s.dirs[d].items()):
        if n in (b"conf.rc", b"outside"):
            continue
        out.append((n, shape_of(s, i) if i in s.dirs else s.meta[i][0], s.meta[i][5]))
    return tuple(out)


class C11(Check):
    prop = "C11"
    technique = "runtime monitoring: kill at every file system call, state and rerun judged"
    rule = "distinct intermediate trees left by a kill (per generated tree with more than one)"
    need_mon = True
    level = "fault_enumeration"
    parts = [("kill", c11, 40, 700)]


# ---------------------------------------------------------------- C13

def searched(case, seq):
    """Adds a filter whose table is found in one of the standard places (in scratch); -> the monitor's redirections."""
    rng = case.rng
    d = os.path.join(case.w.tmp, "places")
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    kind, base = rng.choice([("safe", "safe.tbl"), ("iso8859_1", "iso8859_1.tbl"), ("utf_8", "unicode.tbl")])
    t = M.Table({c: rng.choice([b"Q", b"R", b"_s_"]) for c in rng.sample(range(0x20, 0x100), 30)})
    where = rng.choice(["prefix/share/detox", "usr/share/detox", "usr/local/share/detox"])
    os.makedirs(os.path.join(d, where))
    open(os.path.join(d, where, base), "wb").write(T.table_text(t))
    seq.filters = [M.Filter(kind, table=t)] + list(seq.filters)
    case.count("searched_tables")
    return {"MON_REDIR": "%s=%s/prefix:/usr/local/=%s/usr/local/:/usr/share/detox=%s/usr/share/detox" % (
        os.path.join(case.scratch, "prefix"), d, d, d)}


def c13_tree(case):
    """Every allocation of a renaming run fails once."""
    rng = case.rng
    seq = rand_sequence(rng, case, shipped=0.5) if rng.random() < 0.8 else None
    big = case.index % 12 == 11
    if big:
        seq = M.Sequence("s", [M.F("utf_8", builtin="unicode")] + M.SAFE_WIPE())
    elif seq is None or any(f.builtin == "unicode" for f in seq.filters):
        seq = M.Sequence("s", M.SAFE_WIPE() + [M.F("max_length", length=12)])
    # under the name of a built-in sequence, losing the configuration would not be noticed by itself
    seq = M.Sequence("s", seq.filters)
    redir = searched(case, seq) if not big and rng.random() < 0.4 else {}
    seq.name = rng.choice(["s", "default", "utf_8", "lower"])
    ignore = [b"{arch}", b"CVS"]
    seedstr = repr(rng.random())
    sp = Spec(depth=1, fanout=(1, 4), collide=0.2, specials=0.2, dirs=0.4)
    texts = {f.filename: T.table_text(f.table) for f in seq.filters if f.filename}
    case.fresh()
    for f in seq.filters:
        if f.filename:
            f.filename = os.path.join(case.w.tmp, os.path.basename(f.filename))
            open(f.filename, "wb").write(T.table_text(f.table))
    args = rng.choice([["-r"], ["-r", "-v"], ["-r", "--special"], ["-v", "-r", "-n"]])
    many = rng.random() < 0.3
    env = rng.choice([None, {"DETOX_SEQUENCE": seq.name}])

    def fresh():
        case.fresh()
        r, case.rng = case.rng, random.Random(seedstr)
        sp.seq = seq
        conf = write_conf(case, seq, ignore, others=[M.Sequence("other one", [M.F("lower")])])
        top, root, g = build(case, sp)
        before = Snap(top)
        case.rng = r
        argv = args + ["-f", conf] + ([] if env or seq.name == "default" else ["-s", seq.name]) + [b"root"]
        if many:
            argv += [b"missing%d" % k for k in range(40)]
        return argv, top, before
    argv, top, before = fresh()
    r = case.run(argv, cwd=os.fsdecode(top), mon={"MON_ALLOC": "0", **redir}, env=env, log=False)
    total = case.mon_stats["app"]
    points = list(range(1, total + 1))
    limit = 260 if case.tier == "quick" else 2000
    if len(points) > limit:
        points = sorted(set(points[:20] + points[-120:] + rng.sample(points, limit - 140)))
    for n in points:
        argv, top, before = fresh()
        r = case.run(argv, cwd=os.fsdecode(top), mon={"MON_ALLOC": str(n), **redir}, env=env, log=False)
        if not any(e.name == "allocfail" for e in r.events):
            case.count("not_reached")
            continue
        case.count("allocation_failures")
        run = Run(before, seq, [(before.top, b"root")], True, "--special" in args, ignore)
        after = Snap(top)
        try:
            if r.signal:
                raise Violation("crash", "allocation %d of %d failed: ended by signal %d" % (n, total, r.signal))
            if r.rc == 0:
                raise Violation("success-status", "allocation %d of %d failed and the status is 0" % (n, total))
            if not r.err.strip():
                raise Violation("silent", "allocation %d of %d failed without a message" % (n, total))
            judge(run, after, {"identity", "clean", "scope", "usable"})
            if "-n" in args and after.dirs != before.dirs:
                raise Violation("dry-run", "names changed in a dry run")
        except Violation as v:
            v.detail.update(argv=argv, stderr=r.err, sequence=seq.conf(), allocation=n)
            raise
    case.evals = len(points)
    for n in points:
        case.note((seedstr, n))


def c13_inline(case):
    rng = case.rng
    seq = rand_sequence(rng, case, shipped=0.5)
    if case.index % 10 != 9 and any(f.builtin == "unicode" for f in seq.filters):
        seq = M.Sequence("s", [M.F("uncgi"), M.F("lower"), M.F("max_length", length=20), M.F("wipeup")])
    seq = M.Sequence("s", seq.filters)
    redir = searched(case, seq) if case.index % 10 != 9 and rng.random() < 0.4 else {}
    seq.name = rng.choice(["s", "default", "utf_8", "lower"])
    conf = write_conf(case, seq, [b"x"])
    data = b"".join(T.rand_name(rng) * rng.choice([1, 1, 1, 20]) + b"\n" for _ in range(rng.randint(1, 6)))
    path = os.path.join(case.dir(), "in put")
    open(path, "wb").write(data)
    if rng.random() < 0.2:
        argv, expect = ["-L", "-v", "-f", conf], None
    else:
        argv, expect = ["--inline", "-f", conf] + ([] if seq.name == "default" else ["-s", seq.name]) + ([path] if rng.random() < 0.5 else []), M.inline(seq, data)
    r = case.run(argv, stdin=data, mon={"MON_ALLOC": "0", **redir}, log=False)
    total, good = case.mon_stats["app"], r.out
    if expect is not None and good != expect:
        raise Violation("output", "wrong output without a failing allocation")
    points = list(range(1, total + 1))
    limit = 300 if case.tier == "quick" else 3000
    if len(points) > limit:
        points = sorted(set(points[:20] + points[-140:] + rng.sample(points, limit - 160)))
    for n in points:
        r = case.run(argv, stdin=data, mon={"MON_ALLOC": str(n), **redir}, log=False)
        if not any(e.name == "allocfail" for e in r.events):
            case.count("not_reached")
            continue
        case.count("allocation_failures")
        d = dict(argv=argv, stderr=r.err, stdout=r.out, sequence=seq.conf(), allocation=n, input=data)
        if r.signal:
            raise Violation("crash", "allocation %d of %d failed: ended by signal %d" % (n, total, r.signal), **d)
        if r.rc == 0:
            raise Violation("success-status", "allocation %d of %d failed and the status is 0" % (n, total), **d)
        if not r.err.strip():
            raise Violation("silent", "allocation %d of %d failed without a message" % (n, total), **d)
        if not good.startswith(r.out) or (expect is not None and r.out and not r.out.endswith(b"\n")):
            raise Violation("partial-output", "output is not a sequence of whole correct lines: %s" % printable(r.out), **d)
    case.evals = len(points)
    for n in points:
        case.note((case.index, n))


class C13(Check):
    prop = "C13"
    technique = "runtime monitoring: every allocation made to fail in turn by the preloaded allocator"
    rule = "distinct (run, failing allocation) pairs in which the failure was delivered"
    need_mon = True
    level = "fault_enumeration"
    parts = [("tree", c13_tree, 36, 300), ("inline", c13_inline, 40, 400)]

    def setup(self):
        """The failing allocator has to reach every allocating function it stands in for."""
        src, exe = os.path.join(self.scratch, "self.c"), os.path.join(self.scratch, "self")
        with open(src, "w") as f:
            f.write("""#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
volatile int k; volatile char *v;
int main(int argc, char **argv)
{
    char *l = 0; size_t n = 0; k = atoi(argv[1]);
    if (k == 1) v = malloc(9); if (k == 2) v = calloc(3, 3); if (k == 3) v = realloc(0, 9);
    if (k == 4) v = strdup(argv[0]); if (k == 5) v = strndup(argv[0], 2);
    if (k == 6) v = getline(&l, &n, stdin) < 0 ? 0 : "x"; if (k == 7) v = __getdelim(&l, &n, 10, stdin) < 0 ? 0 : "x";
    return v != 0;
}
""")
        B.sh(["gcc", "-O0", "-w", "-fno-builtin", "-o", exe, src])
        for k in range(1, 8):
            got = [subprocess.run([exe, str(k)], input=b"x\n", env={"LD_PRELOAD": self.bins["mon"], "MON_ALLOC": a,
                                  "MON_LOG": os.path.join(self.scratch, "self.log")}).returncode for a in ("0", "1")]
            if got != [1, 0]:
                raise HarnessError("the failing allocator does not work (%d: %s)" % (k, got))


# ---------------------------------------------------------------- C14

def c14_heap(case):
    """Live heap at the end of a run over N and over 4N items of one kind."""
    rng = case.rng
    kinds = ["changed", "unchanged", "protected", "collide", "dirs", "args", "argdirs", "inline", "inline-long", "ignored",
             "special", "missing", "unusable", "nested", "inline-dots", "inline-files", "failing", "unreadable", "injected", "dots"]
    kind = kinds[case.index % len(kinds)]
    seq = M.Sequence("s", [[M.F("uncgi")] + M.SAFE_WIPE(), M.SAFE_WIPE(),
                           [M.F("utf_8", builtin="unicode"), M.F("lower"), M.F("wipeup", remove_trailing=True), M.F("max_length", length=40)],
                           [M.F("iso8859_1", builtin="cp1252"), M.F("uncgi"), M.F("safe", builtin="safe")],
                           [M.F("max_length", length=30)], [M.F("wipeup")]][rng.randint(0, 5)])
    base = rng.randint(6, 14)
    stats = []
    inject = "%s:-%d:%d" % (rng.choice(["readdir", "readdir", "lstat", "rename", "opendir", "fopen"]), rng.randint(2, 4), rng.choice([5, 13, 22]))
    body = rng.choice([b"a b\nc+d\n", b"a b\nc+d", b"one (line)", b"", b".", b"..\n", b"x\0y\nz", b"plain\n", b"a b" * 400])
    for n in (base, base * 4):
        case.fresh()
        conf = write_conf(case, seq)
        top = os.fsencode(case.dir())
        root = os.path.join(top, b"root")
        os.mkdir(root)
        argv = ["-f", conf, "-s", "s", "-r"]
        data = b""
        mon = {"MON_HEAP": "1"}
        touch = lambda p: open(p, "wb").close()
        if kind == "inline":
            argv.append("--inline")
            data = b"a b+c (%41).txt\n" * n + rng.choice([b"", b"last one"])
        elif kind == "inline-long":
            argv.append("--inline")
            data = (b"x y(" * 3000 + b"\n") * n
        elif kind == "inline-dots":
            argv.append("--inline")
            data = b".\n..\nab\n" * n
        elif kind == "inline-files":
            argv.append("--inline")
            for k in range(n):
                open(os.path.join(root, b"in%03d" % k), "wb").write(body)
                argv.append(b"root/in%03d" % k)
        elif kind == "missing":
            argv += [b"nothing here %03d" % k for k in range(n)]
        elif kind == "dots":
            argv += [rng.choice([b".", b"root/.", b"root/..", b"./."]) for k in range(n)]
        elif kind == "args":
            for k in range(n):
                touch(os.path.join(root, b"a b %03d" % k))
            argv += [b"root/a b %03d" % k for k in range(n)]
        elif kind in ("argdirs", "injected"):
            if kind == "injected":
                mon["MON_FAIL"] = inject
                if inject.startswith("fopen"):
                    mon["MON_FAIL"] = "none:1:5"
                    argv.append("--inline")
                    os.mkdir(os.path.join(root, b"not a file"))
                    argv += [b"root/not a file"] * n
            for k in range(0 if b"root/not a file" in argv else n):
                os.mkdir(os.path.join(root, b"d d %03d" % k))
                touch(os.path.join(root, b"d d %03d" % k, b"in side"))
            if b"root/not a file" not in argv:
                argv += [b"root/d d %03d" % k for k in range(n)]
        else:
            if kind == "failing":
                mon["MON_FAIL"] = "none:1:5"
            p = root
            for k in range(n):
                q = os.path.join(root, {"changed": b"a b %03d", "unchanged": b"ab%03d", "protected": b".hid%03d",
                                        "collide": b"x  %03d", "dirs": b"d d %03d", "ignored": b".i i%03d", "failing": b"f f%03d",
                                        "special": b"s s%03d", "unusable": b"%%2f%03d", "nested": b"n%03d", "unreadable": b"u%03d"}[kind] % k)
                if kind == "dirs":
                    os.mkdir(q)
                    for j in range(3):
                        touch(os.path.join(q, b"e f%d" % j))
                elif kind == "unreadable":
                    os.mkdir(q, 0)
                elif kind == "special":
                    os.symlink(b"x", q)
                elif kind == "nested":
                    p = os.path.join(p, b"n n")
                    os.mkdir(p)
                    touch(os.path.join(p, b"f f"))
                elif kind == "collide":
                    touch(q)
                    touch(os.path.join(root, b"x_%03d" % k))
                else:
                    touch(q)
            if kind == "failing":
                os.chmod(root, 0o555)
            if kind == "special" and rng.random() < 0.5:
                argv.append("--special")
            argv.append(b"root")
        r = case.run(argv, cwd=os.fsdecode(top), stdin=data, mon=mon, log=False)
        if kind == "failing":
            os.chmod(root, 0o755)
        if r.signal or "live_blocks" not in case.mon_stats:
            raise Violation("crash", "run over %d items of kind %s ended with %d" % (n, kind, r.rc), stderr=r.err)
        stats.append((n, case.mon_stats["live_blocks"], case.mon_stats["live_bytes"], case.mon_stats["fds"]))
    (n1, b1, y1, f1), (n2, b2, y2, f2) = stats
    if f2 > f1:
        raise Violation("not-closed", "%s: %d items leave %d descriptors open, %d leave %d" % (kind, n1, f1, n2, f2), sequence=seq.conf())
    allowed = 0
    if kind in ("args", "argdirs", "inline-files", "missing", "injected", "dots"):
        allowed = 1     # the arguments themselves are held in a list
    growth = (b2 - b1) / (n2 - n1)
    per_byte = (y2 - y1) / (n2 - n1)
    case.count("heap_pairs_compared")
    case.seen("kinds", kind)
    if growth > allowed + 0.34:
        raise Violation("heap", "%s: %d items hold %d blocks (%d bytes), %d items hold %d (%d)" % (
            kind, n1, b1, y1, n2, b2, y2), sequence=seq.conf())
    if per_byte > (allowed and 160) + 24:
        raise Violation("heap", "%s: %d items hold %d bytes, %d items hold %d" % (kind, n1, y1, n2, y2), sequence=seq.conf())
    case.note((kind, seq.conf(), base, body if kind == "inline-files" else b""), dict(kind=kind, measured=stats))


def c14_fds(case):
    """With few descriptors, any number of directories and inputs."""
    rng = case.rng
    kind = ["many", "deep", "args", "inline", "unreadable", "wide-deep"][case.index % 6]
    seq = M.Sequence("s", M.SAFE_WIPE())
    case.dir()
    conf = write_conf(case, seq)
    top = os.fsencode(case.dir())
    root = os.path.join(top, b"root")
    os.mkdir(root)
    limit = rng.choice([8, 10, 16])
    argv = ["-f", conf, "-s", "s", "-r"]
    fine = True
    if kind == "inline":
        for k in range(60):
            open(os.path.join(root, b"i%d" % k), "wb").write(b"x y\n" * rng.randint(0, 4))
            argv.append(b"root/i%d" % k)
        argv.insert(0, "--inline")
        expect = b"".join(M.inline(seq, open(os.path.join(root, b"i%d" % k), "rb").read()) for k in range(60))
        r = case.run(argv, cwd=os.fsdecode(top), limits={"RLIMIT_NOFILE": limit})
        if r.out != expect or r.rc:
            raise Violation("descriptors", "with %d descriptors 60 input files are not all read" % limit, stderr=r.err)
        case.note((kind, limit, case.index))
        return
    if kind in ("many", "args", "unreadable"):
        for k in range(80):
            p = os.path.join(root, b"d d%d" % k)
            os.mkdir(p)
            open(os.path.join(p, b"f f"), "wb").close()
            if kind == "unreadable" and k % 2:
                os.chmod(p, 0)
    elif kind == "deep":
        p = root
        comp = rng.choice([b"d d", b"e", b"long dir (name)"])
        for k in range(rng.choice([40, 120, 200])):
            if len(p) + 2 * len(comp) > 3800:
                break
            p = os.path.join(p, comp)
            os.mkdir(p)
            open(os.path.join(p, b"f f"), "wb").close()
    else:
        for a in range(4):
            for b in range(4):
                for c in range(3):
                    p = os.path.join(root, b"a %d/b %d/c %d/d d/e e/f f/g g/h h" % (a, b, c))
                    os.makedirs(p)
                    open(os.path.join(p, b"x x"), "wb").close()
    restore_to = [os.path.join(root, n) for n in os.listdir(root)] if kind == "unreadable" else []
    for p in restore_to:
        os.chmod(p, 0o755)
    before = Snap(top)
    if kind == "unreadable":
        bad = {os.lstat(p).st_ino for k, p in enumerate(sorted(restore_to)) if k % 2}
        for p in restore_to:
            if os.lstat(p).st_ino in bad:
                os.chmod(p, 0)
    rootino = before.dirs[before.top][b"root"]
    if kind == "args":
        names = sorted(before.dirs[rootino])
        argv += [b"root/" + n for n in names]
        run = Run(before, seq, [(rootino, n) for n in names], True)
    else:
        argv.append(b"root")
        run = Run(before, seq, [(before.top, b"root")], True)
    r = case.run(argv, cwd=os.fsdecode(top), limits={"RLIMIT_NOFILE": limit})
    if kind == "unreadable":
        restore(top, bad)
    after = Snap(top)
    try:
        judge(run, after, {"complete", "clean"}, exempt=lambda key: kind == "unreadable" and key[0] in bad)
    except Violation as v:
        raise Violation("descriptors", "with %d descriptors, %s: %s" % (limit, kind, v.what), stderr=r.err)
    case.count("renamed_under_limit", run.facts["performed"])
    case.note((kind, limit, case.index))


def c14_units(case):
    """Live heap and descriptors at the end of a run over one and over several copies of the same arbitrary tree, in any mode."""
    rng = case.rng
    if case.index % 3 == 0:
        # results of every kind: unusable, unchanged, emptied, grown, cut, given up
        seq = M.Sequence("s", rng.choice([
            [M.F("uncgi")], [M.F("uncgi"), M.F("max_length", length=rng.choice([1, 2, 5]))], [M.F("max_length", length=3)],
            [M.F("wipeup", remove_trailing=True)], [M.F("utf_8", builtin="unicode"), M.F("max_length", length=4)],
            [M.F("uncgi"), M.F("utf_8", builtin="unicode")], [M.F("iso8859_1", builtin="cp1252"), M.F("uncgi"), M.F("lower")]]))
    else:
        seq = None
    seq = seq or rand_sequence(rng, case, shipped=0.4, wild=0.5)
    texts = {f.filename: T.table_text(f.table) for f in seq.filters if f.filename}
    for f in seq.filters:
        if f.filename:
            new = os.path.join(case.w.tmp, os.path.basename(f.filename))
            open(new, "wb").write(texts[f.filename])
            f.filename = new
    sp = Spec(fanout=(3, 10), depth=rng.choice([0, 1, 2]), collide=0.3, specials=0.15, escapes=0.2, hidden=0.1, long_top=0, sparse=0)
    sp.seq = seq
    flags = rng.choice([["-r"], ["-r"], ["-r", "-n"], ["-r", "-v"], ["-r", "--special"], ["-r", "--special", "-n"], ["-rv", "--special"]])
    fail = None
    if rng.random() < 0.5:
        cls, errs = rng.choice(CLASSES)
        fail = "%s:-%d:%d" % (cls, rng.randint(2, 5), rng.choice(errs))
    raw = rng.random() < 0.15
    seedstr = repr(rng.random())
    stats = []
    few, many = rng.choice([(1, 7), (2, 8), (2, 12)])
    for n in (few, many):
        case.fresh()
        r, case.rng = case.rng, random.Random(seedstr)
        conf = write_conf(case, seq, [b"{arch}", b"keep"])
        case.rng = r
        top = os.fsencode(case.dir())
        root = os.path.join(top, b"root")
        os.mkdir(root)
        for k in range(n):
            r, case.rng = case.rng, random.Random(seedstr)
            g = T.Gen(case, sp)
            case.rng = r
            g.outside = os.path.join(top, b"outside%d" % k)
            os.mkdir(g.outside)
            u = os.path.join(root, b"u%d" % k)
            os.mkdir(u)
            g.make(u, sp.depth)
            if raw:
                os.chmod(u, 0o555)
        mon = {"MON_HEAP": "1"}
        if fail:
            mon["MON_FAIL"] = fail
        res = case.run(flags + ["-f", conf, "-s", "s", "root"], cwd=os.fsdecode(top), mon=mon, log=False)
        if raw:
            for r, ds, _ in os.walk(top):
                for k in ds:
                    if not os.path.islink(os.path.join(r, k)):
                        os.chmod(os.path.join(r, k), 0o755)
        if res.signal or "live_blocks" not in case.mon_stats:
            raise Violation("crash", "run over %d trees ended with %d" % (n, res.rc), stderr=res.err, flags=flags, fail=fail)
        stats.append((n, case.mon_stats["live_blocks"], case.mon_stats["live_bytes"], case.mon_stats["fds"]))
    measured(case, stats, 0, seq, flags=flags, fail=fail)
    case.note((seq.conf(), flags, fail, seedstr), dict(flags=flags, fail=fail, measured=stats))


def measured(case, stats, allowed, seq, **detail):
    (n1, b1, y1, f1), (n2, b2, y2, f2) = stats
    if f2 > f1:
        raise Violation("not-closed", "%d items leave %d descriptors open, %d leave %d" % (n1, f1, n2, f2), sequence=seq.conf(), **detail)
    case.count("heap_pairs_compared")
    # (a buffer may be made when first needed)
    if b2 - b1 > (n2 - n1) * allowed + max(2, (n2 - n1) * 0.34):
        raise Violation("heap", "%d items hold %d blocks (%d bytes), %d items hold %d (%d)" % (n1, b1, y1, n2, b2, y2), sequence=seq.conf(), **detail)
    if y2 - y1 > (n2 - n1) * (allowed * 160 + 24) + 9000:
        raise Violation("heap", "%d items hold %d bytes, %d items hold %d" % (n1, y1, n2, y2), sequence=seq.conf(), **detail)


INPUTS = ["good", "good", "missing", "denied", "directory", "below", "mem", "dirlink", "dangling", "socket", "loop", "link"]


def odd_input(d, kind, k, data=b"hidden (1)\n"):
    """Make an input for inline mode; returns its name, relative to d."""
    name = b"%s %d" % (kind.encode(), k)
    p = os.path.join(os.fsencode(d), name)
    if kind in ("good", "denied", "below"):
        open(p, "wb").write(data)
        if kind == "denied":
            os.chmod(p, 0)
        if kind == "below":
            name += b"/x y"
    elif kind == "directory":
        os.mkdir(p)
    elif kind == "mem":
        return b"/proc/self/mem"        # opens, but does not read
    elif kind == "dirlink":
        os.symlink(b".", p)
    elif kind == "loop":
        os.symlink(name, p)
    elif kind == "link":
        open(p + b" target", "wb").write(data)
        os.symlink(name + b" target", p)
    elif kind == "dangling":
        os.symlink(b"nowhere", p)
    elif kind == "socket":
        at = os.open(d, os.O_RDONLY)
        try:
            s = socket.socket(socket.AF_UNIX)
            s.bind(b"/proc/self/fd/%d/%s" % (at, name))
            s.close()
        finally:
            os.close(at)
    return name


def c14_inputs(case):
    """The same over input lines and input files of inline mode."""
    rng = case.rng
    seq = rand_sequence(rng, case, shipped=0.3, wild=0.5, tables=False)
    if rng.random() < 0.2:
        t = M.Table({rng.randint(1, 255): b"long " * rng.choice([5, 20, 300]) for _ in range(3)}, rng.choice([None, b"_", b"d" * 99]))
        p = os.path.join(case.dir(), "long.tbl")
        open(p, "wb").write(T.table_text(t))
        seq.filters = list(seq.filters)
        seq.filters.insert(rng.randint(0, len(seq.filters)), M.F(rng.choice(["safe", "utf_8", "iso8859_1"]), filename=p, table=t))
    lines = [T.rand_name(rng, 0, 0.2) for _ in range(rng.randint(1, 12))] + [b"", b"."][:rng.randint(0, 2)]
    lines += [b"y" * 3000] if rng.random() < 0.2 else []
    unit = b"".join(x + b"\n" for x in lines)
    kinds = [rng.choice(INPUTS) for _ in range(rng.randint(1, 6))] if rng.random() < 0.6 else []
    stats = []
    d = case.dir()
    conf = write_conf(case, seq)
    args = [odd_input(d, kind, k, unit) for k, kind in enumerate(kinds)]
    for n in (2, 9):
        r = case.run(["--inline", "-f", conf, "-s", "s"] + args * n, cwd=d, stdin=None if args else unit * n, mon={"MON_HEAP": "1"}, log=False)
        if r.signal or "live_blocks" not in case.mon_stats:
            raise Violation("crash", "run over %d inputs ended with %d" % (n, r.rc), stderr=r.err, arguments=args)
        stats.append((n, case.mon_stats["live_blocks"], case.mon_stats["live_bytes"], case.mon_stats["fds"]))
    # the arguments themselves are held in a list
    measured(case, stats, len(args), seq, arguments=args, lines=lines)
    case.note((seq.conf(), lines, kinds), dict(kinds=kinds, measured=stats))


def c14_growth(case):
    """The descriptors open at the end of a run over a tree are those open at the end of a run over nothing."""
    rng = case.rng
    seq = M.Sequence("s", M.SAFE_WIPE())
    one = One(case, Spec(fanout=(1, 7), depth=4, dirs=0.5), seq=seq, recurse=True, mon={"MON_HEAP": "1"})
    used = case.mon_stats.get("fds")
    empty = os.path.join(case.dir(), "empty")
    os.mkdir(empty)
    conf = write_conf(case, seq)
    case.run(["-r", "-f", conf, "-s", "s", "."], cwd=empty, mon={"MON_HEAP": "1"}, log=False)
    base = case.mon_stats.get("fds")
    if used is None or base is None:
        raise one.detail(Violation("crash", "the run did not end normally"))
    if used > base:
        raise one.detail(Violation("not-closed", "%d descriptors are left open, %d after a run over nothing" % (used, base)))
    opens = sum(e.name == "opendir" and e.ret == 0 for e in one.res.events)
    case.count("directories_opened", opens)
    one.run.facts = dict(performed=0, kept=0)
    one.note(opens > 1)


class C14(Check):
    prop = "C14"
    technique = "runtime monitoring: live heap accounting and descriptor limits over growing workloads"
    rule = "distinct (kind of item, sequence, size) pairs of heap measurements; runs under a descriptor limit"
    need_mon = True
    parts = [("heap", c14_heap, 360, 3600), ("descriptors", c14_fds, 60, 480), ("closed", c14_growth, 120, 1200),
             ("units", c14_units, 600, 8000), ("inputs", c14_inputs, 300, 4000)]


CHECKS = [C03, C10, C11, C13, C14]
