"""C01, C02, C04-C09: renaming runs over generated trees, judged from snapshots by inode."""
import os, stat

from lib import model as M, trees as T
from lib.core import Check, Violation, printable
from lib.trees import Gen, Plan, Run, Snap, Spec, build, judge, options, rand_sequence, write_conf

MUTATING = {"rename", "renameat", "renameat2", "sys_rename", "link", "linkat", "symlink", "unlink", "unlinkat", "remove",
            "rmdir", "mkdir", "chmod", "truncate", "open-w"}


class One:
    """One generated tree and one run over it."""

    def __init__(self, case, spec, aspects=(), seq=None, mode=None, recurse=None, special=None, dry=False, verbose=None,
                 ignore=None, mon=None, prepare=None, env=None, fill=0):
        rng = case.rng
        self.case = case
        case.dir()
        self.seq = spec.seq = seq or rand_sequence(rng, case)
        if ignore is None:
            ignore = rng.choice([[], [b"{arch}"], [b"{arch}", b"CVS"], [b"a b", b"{arch}", b"CVS", b"-x"], [b"q" * 70 + b" (1)", b"(" * 200]])
        self.ignore = ignore
        spec.ignore_names = ignore or [b"{arch}"]
        many = list(ignore)
        for k in range(fill):       # entries that match nothing, around those that may
            many.insert(rng.randint(0, len(many)), b"no such name %d" % k)
        conf = write_conf(case, self.seq, many)
        self.top, self.root, self.gen = build(case, spec)
        if prepare:
            prepare(self)
        self.before = Snap(self.top)
        plan = self.plan = Plan(case, self.top, self.root, self.before, self.seq, mode)
        recurse = rng.random() < 0.75 if recurse is None else recurse
        special = rng.random() < 0.35 if special is None else special
        verbose = rng.random() < 0.3 if verbose is None else verbose
        self.run = Run(self.before, self.seq, plan.args, recurse, special, ignore, dry, verbose)
        self.argv = options(rng, recurse, special, dry, verbose, conf, self.seq.name, plan)
        self.mon = mon(self) if callable(mon) else mon
        self.res = case.run(self.argv, cwd=os.fsdecode(plan.cwd), mon=self.mon, env=env, stdin=b"")
        self.after = Snap(self.top)
        if self.res.signal:
            raise Violation("crash", "ended by signal %d" % self.res.signal, stderr=self.res.err)

    def detail(self, v):
        v.detail.update(argv=self.argv, cwd=self.plan.cwd, sequence=self.seq.conf(), ignore=self.ignore,
                        stderr=self.res.err[-1500:], stdout=self.res.out[-1500:])
        v.detail["entries"] = [b"/".join([b"%d" % d, n]) for d, es in self.before.dirs.items() for n in es][:60]
        return v

    def judge(self, aspects, **kw):
        try:
            p = judge(self.run, self.after, set(aspects), stderr=self.res.err, **kw)
        except Violation as v:
            raise self.detail(v)
        f = self.run.facts
        self.case.count("entries", len(self.before.meta))
        self.case.count("in_scope", f["scope"])
        self.case.count("renamed", f["performed"])
        self.case.count("kept_contended_or_failed", f["kept"])
        return p

    def note(self, key):
        if key:
            self.case.note(sorted((n for es in self.before.dirs.values() for n in es)) + self.argv[:4],
                           dict(argv=self.argv, mode=self.plan.mode, entries=len(self.before.meta),
                                renamed=self.run.facts["performed"], refused=self.run.facts["kept"]))


# ---------------------------------------------------------------- C01

def c01(case):
    rng = case.rng
    dry = rng.random() < 0.1
    one = One(case, Spec(escapes=rng.choice([0.02, 0.3]), newline=rng.random() < 0.3, collide=rng.choice([0.2, 0.7])),
              dry=dry)
    p = one.judge({"identity"})
    one.note(p or dry)


def c01_stock(case):
    """Without any configuration: the built-in sequences; other outcomes (usage, errors, list)."""
    rng = case.rng
    seq = rng.choice(M.shipped())
    spec = Spec(escapes=0.2, collide=0.5, newline=rng.random() < 0.3)
    spec.seq = seq
    spec.ignore_names = M.SHIPPED_IGNORE
    top, root, g = build(case, spec)
    before = Snap(top)
    plan = Plan(case, top, root, before, seq)
    argv = ["-s", seq.name]
    if rng.random() < 0.7:
        argv += ["-r"]
    argv += rng.choice([[], [], [], ["--special"], ["-v"], ["-L"], ["-h"], ["-V"], ["--bad"], ["-n"], ["-f", "/nonexistent"],
                        ["-L", "-v"], ["-s", "nosuch"]])
    argv += ["--"] + list(plan.argv)
    if rng.random() < 0.2:
        argv.append(b"missing file")
    r = case.run(argv, cwd=os.fsdecode(plan.cwd))
    after = Snap(top)
    try:
        T.check_identity(before, after)
    except Violation as v:
        v.detail.update(argv=argv, stderr=r.err)
        raise
    case.count("entries", len(before.meta))
    case.note(argv + sorted(n for es in before.dirs.values() for n in es))


class C01(Check):
    prop = "C01"
    technique = "runtime monitoring: inode-level conservation check over generated trees"
    rule = "distinct trees (set of names and options) on which at least one rename was performed or attempted"
    parts = [("tree", c01, 1800, 24000), ("stock", c01_stock, 500, 8000)]


# ---------------------------------------------------------------- C02

def old_system(case, share):
    """Now and then, a system or file system that cannot rename without replacing (EINVAL, ENOSYS)."""
    if case.rng.random() >= share:
        return None
    case.count("without_noreplace")
    return {"MON_FAIL": "renameat2:-1:%d" % case.rng.choice([22, 38])}


def c02(case):
    one = One(case, Spec(collide=0.8, specials=0.3, hard=0.15, dirs=0.25, ignored=0.02, hidden=0.03, fanout=(1, 9), depth=2),
              special=case.rng.random() < 0.5, mon=old_system(case, 0.2))
    one.judge({"identity", "collision", "complete"})
    one.note(one.run.facts["refused"])
    case.count("refused", one.run.facts["refused"])


KINDS = ["file", "empty dir", "full dir", "dangling", "link", "fifo", "hard"]


def c02_pairs(case):
    """Every kind of entry against every kind of occupant, argument or walked."""
    rng = case.rng
    src, dst = KINDS[case.index % 7], KINDS[case.index // 7 % 7]
    if src == "hard":
        src = "file"
    seq = M.Sequence("s", M.SAFE_WIPE())
    old, new = rng.choice([(b"x y", b"x_y"), (b"-q(1", b"q-1"), (b"n&m.", b"n_and_m."), (b"__z", b"z")])

    def prepare(o):
        d = o.root
        if rng.random() < 0.5:
            d = os.path.join(o.root, b"sub")
            if not os.path.lexists(d):
                os.mkdir(d)
            elif not os.path.isdir(d) or os.path.islink(d):
                d = o.root
        for n, k in ((old, src), (new, dst)):
            p = os.path.join(d, n)
            if os.path.lexists(p):
                continue
            if k == "file":
                open(p, "wb").write(b"contents of " + n)
            elif k == "empty dir":
                os.mkdir(p)
            elif k == "full dir":
                os.mkdir(p)
                open(os.path.join(p, b"inner one"), "wb").write(n)
            elif k == "dangling":
                os.symlink(b"nowhere", p)
            elif k == "link":
                os.symlink(rng.choice([old, new, b"."]), p)
            elif k == "fifo":
                os.mkfifo(p)
            elif k == "hard":
                q = os.path.join(d, old)
                if os.path.isfile(q) and not os.path.islink(q):
                    os.link(q, p)
                else:
                    open(p, "wb").write(b"another")
    one = One(case, Spec(fanout=(0, 3), depth=1, collide=0.3), seq=seq, special=True, prepare=prepare,
              mode=rng.choice(["rel", "here", "entries-here", "entries", "abs"]))
    one.judge({"identity", "collision", "complete"})
    case.note((src, dst, one.plan.mode, old, one.run.facts["refused"] > 0))
    case.count("refused", one.run.facts["refused"])


class C02(Check):
    prop = "C02"
    technique = "runtime monitoring: collision oracle over inode snapshots"
    rule = "distinct trees with at least one refused rename, plus distinct (kind, occupant, mode) pairs"
    need_mon = True
    parts = [("tree", c02, 1500, 20000), ("pairs", c02_pairs, 490, 4900)]


# ---------------------------------------------------------------- C04

def c04(case):
    rng = case.rng
    r = rng.random()
    seq = None
    if r < 0.5:
        seq = M.Sequence("s", rng.choice([[M.F("uncgi")], [M.F("uncgi"), M.F("uncgi")], [M.F("uncgi"), M.F("lower")],
                                          [M.F("uncgi"), M.F("wipeup")], [M.F("wipeup", remove_trailing=True)],
                                          [M.F("wipeup")], [M.F("uncgi"), M.F("wipeup", remove_trailing=True)],
                                          M.SAFE_WIPE(), [M.F("max_length", length=rng.choice([1, 2]))],
                                          [M.F("uncgi"), M.F("max_length", length=rng.choice([1, 2, 3]))],
                                          [M.F("utf_8", builtin="unicode"), M.F("uncgi")]]))
    else:
        seq = rand_sequence(rng, case, shipped=0, wild=0.5)
    spec = Spec(escapes=0.5, collide=0.15, hidden=0.02, ignored=0)
    if r > 0.94:
        # results of many components, longer than a name can be
        t = M.Table({0x51: rng.choice([b"sub/../", b"d1/../", b"./", b"../root/", b"a/.././", b"//"]), 0x5A: b"/"}, None)
        p = os.path.join(case.dir(), "long.tbl")
        open(p, "wb").write(T.table_text(t))
        seq = M.Sequence("s", [M.F("safe", filename=p, table=t)] + [M.F("lower")] * (rng.random() < 0.3))
        spec.namer = lambda g: b"%s%s%s" % (g.choice([b"", b"", b"x"]), b"Q" * g.choice([1, 20, 36, 37, 60, 120, 200]), g.choice([b"y", b"z%d" % g.randint(1, 99), b"Z", b"", b"q/"[:1]]))
        case.count("long_results")

    def prepare(o):
        # places that decoded names could reach
        for d in (o.root, o.top):
            for n in (b"sub", b"d1", b"a"):
                p = os.path.join(d, n)
                if not os.path.lexists(p) and rng.random() < 0.6:
                    os.mkdir(p)
    one = One(case, spec, seq=seq, prepare=prepare,
              special=rng.random() < 0.5)
    unusable = [k for k in one.run.scope if not M.usable(one.seq.run(k[1]))]
    one.judge({"identity", "dir", "usable", "clean"})
    case.count("unusable_targets", len(unusable))
    for k in unusable:
        case.seen("unusable_forms", one.seq.run(k[1])[:40])
    one.note(unusable)


def c04_ways(case):
    """Arguments that reach their directory by way of others, and of links."""
    rng = case.rng
    one = One(case, Spec(escapes=0.05, collide=0.1, specials=0.4, dirs=0.4, depth=2, fanout=(1, 7)), mode=rng.choice(["detour", "detour", "deep"]),
              special=rng.random() < 0.5)
    one.judge({"identity", "dir", "usable", "clean", "complete"})
    one.note(one.run.facts["performed"] and one.argv[-3:])


class C04(Check):
    prop = "C04"
    technique = "runtime monitoring: containment oracle over inode snapshots"
    rule = "distinct trees holding at least one entry in scope whose cleaned form is not a usable name"
    parts = [("tree", c04, 2000, 26000), ("ways", c04_ways, 800, 8000)]


# ---------------------------------------------------------------- C05

def c05(case):
    rng = case.rng
    one = One(case, Spec(specials=0.35, dirs=0.3, collide=0.15, hidden=0.12, ignored=0.1))
    one.judge({"scope", "complete"})
    out = sum(len(es) for es in one.before.dirs.values()) - len(one.run.scope)
    case.count("out_of_scope", out)
    case.seen("modes", (one.plan.mode, one.run.recurse, one.run.special))
    one.note(out and one.run.facts["performed"])


class C05(Check):
    prop = "C05"
    technique = "runtime monitoring: scope oracle over inode snapshots"
    rule = "distinct trees with renames and with entries out of scope"
    parts = [("tree", c05, 2400, 30000)]


# ---------------------------------------------------------------- C06

def c06(case):
    rng = case.rng
    pool = [b"{arch}", b"CVS", b"keep me", b"a b", b"x(1)", b"-dash", b"_under", b"caf\xc3\xa9 x", b"trail ", b"long " * 12,
            b"B&B", b"[q]", b"semi;colon", b"%41", b"#hash", b"two  spaces", b"t*", b"longer " * 20, b"y" * 240 + b" end", b"z (1)" * 40]
    ignore = rng.sample(pool, rng.randint(1, len(pool)))
    one = One(case, Spec(ignored=rng.choice([0.15, 0.4]), hidden=0.15, specials=0.1, collide=0.1, fanout=(1, 9), depth=3,
                         dirs=0.35),
              ignore=ignore, recurse=rng.random() < 0.9, special=rng.random() < 0.4, fill=rng.choice([0] * 12 + [150, 600, 2000]))
    one.judge({"scope", "complete"})
    n = 0
    for d, es in one.before.dirs.items():
        for name in es:
            if (name[:1] == b"." or name in one.run.ignore) and one.seq.run(name) != name:
                n += 1
    case.count("protected_entries_that_would_change", n)
    one.note(n)


def c06_named(case):
    """Hidden and ignored entries are processed when named."""
    rng = case.rng
    ignore = [b"{arch}", b"keep me", b"a b"]
    seq = M.Sequence("s", M.SAFE_WIPE())

    def prepare(o):
        for n in [b".hid den", b"keep me", b"a b", b"{arch}", b".dir (x)"]:
            p = os.path.join(o.root, n)
            if not os.path.lexists(p):
                if b"dir" in n or rng.random() < 0.4:
                    os.mkdir(p)
                    open(os.path.join(p, rng.choice([b"in side", b".h h", b"keep me"])), "wb").close()
                else:
                    open(p, "wb").close()
    one = One(case, Spec(fanout=(0, 5), depth=2), seq=seq, ignore=ignore, prepare=prepare,
              mode=rng.choice(["entries", "entries-here"]))
    one.judge({"scope", "complete"})
    named = [k for k in one.run.scope if k[0] == one.plan.rootino and (k[1][:1] == b"." or k[1] in ignore)]
    case.count("named_protected_entries", len(named))
    one.note(named)


class C06(Check):
    prop = "C06"
    technique = "runtime monitoring: ignore-list oracle over inode snapshots"
    rule = "distinct trees with hidden or ignored entries whose names the sequence would change"
    parts = [("tree", c06, 1800, 22000), ("named", c06_named, 500, 5000)]


# ---------------------------------------------------------------- C07

def c07(case):
    rng = case.rng
    flags = rng.choice(["", "s%d" % rng.randint(1, 9999), "s%dr" % rng.randint(1, 9999), "r", "ru", "s%dru" % rng.randint(1, 9999)])
    seq = None
    if rng.random() < 0.4:      # sequences that would change their own results again
        seq = M.Sequence("s", rng.choice([[M.F("uncgi")], [M.F("uncgi"), M.F("lower")],
                                          [M.F("max_length", length=9), M.F("wipeup")],
                                          [M.F("safe", builtin="safe"), M.F("max_length", length=8)]]))

    def namer(rng):
        return rng.choice([b"%2541", b"%252541", b"a%2520b", b"%25252541", b"b%253F", b"c%252B"]) + b"%d" % rng.randint(0, 40)
    sp = Spec(fanout=(2, 14), collide=0.15, depth=3, ignored=0.02, hidden=0.03)
    if seq and rng.random() < 0.7:
        sp.namer = namer
    mon = {**({"MON_DIR": flags} if flags else {}), **(old_system(case, 0.15) or {})}
    one = One(case, sp, seq=seq, recurse=rng.random() < 0.85, mon=mon or None)
    one.judge({"clean", "complete"})
    case.seen("listing_behaviours", "".join(c for c in flags if not c.isdigit()))
    case.count("redelivered", sum(e.name == "redeliver" for e in one.res.events))
    one.note(one.run.facts["performed"])


def c07_large(case):
    """Large and deep: many entries in one directory, long chains, many arguments."""
    rng = case.rng
    shape = case.index % 4
    seq = M.Sequence("s", M.SAFE_WIPE() if case.index % 3 else [M.F("uncgi")])
    utmost = case.index in (1, 13)
    if utmost:
        seq = M.Sequence("s", [M.F("lower")])
    case.dir()
    conf = write_conf(case, seq)
    top = os.fsencode(case.dir())
    root = os.path.join(top, b"root")
    os.mkdir(root)
    big = 20000 if case.tier == "thorough" else 3000
    if shape == 0:
        n = rng.randint(500, big) if case.index % 12 else 70000 if case.index == 0 else rng.randint(20000, 30000)
        for k in range(n):
            if k % 10 or n > 3000:
                open(os.path.join(root, b"f %%2541 %d" % k), "wb").close()
            else:
                os.mkdir(os.path.join(root, b"f %%2541 %d" % k))
                open(os.path.join(root, b"f %%2541 %d" % k, b"f %2541"), "wb").close()
    elif shape == 1:
        # a chain of directories, each with files, as deep as the path length allows
        p, k = root, 0
        comp = [b"d d", b"x%2541", b"e f", b"q" * 60 + b" ", b"w" * 200 + b"&", b"g%41 h"][case.index // 4 % 6]
        far = 3000 if len(comp) > 50 else [400, 1200, 3900][case.index // 4 % 3]
        if case.index % 8 == 5:
            far = 4000
        if utmost:
            # as many levels as a path can have
            comp, far = [b"A", b"Be"][case.index // 13], 4080
        while len(p) + 2 * len(comp) + (0 if utmost else 30) < far:
            p = os.path.join(p, comp)
            os.mkdir(p)
            k += 1
            for j in range(rng.randint(0, 3) if not utmost else k % 100 == 0):
                open(os.path.join(p, b"F (%d)" % j), "wb").close()
            room = 4080 - len(p)
            if room > 30 and rng.random() < 0.5:
                n = b"long (name) " * 30
                open(os.path.join(p, n[:min(room, 255)]), "wb").close()
    elif shape == 2:
        for k in range(rng.randint(100, 900)):
            p = os.path.join(root, b"a %d" % k)
            if k % 3:
                open(p, "wb").close()
            else:
                os.mkdir(p)
                open(os.path.join(p, b"in %d" % k), "wb").close()
    else:
        for a in range(12):
            p = os.path.join(root, b"d+%d" % a)
            os.mkdir(p)
            for b in range(12):
                q = os.path.join(p, b"e %d%%252" % b)
                os.mkdir(q)
                for c in range(rng.randint(0, 8)):
                    open(os.path.join(q, b"f&%d" % c), "wb").close()
    before = Snap(top, content=False)
    if shape == 2:
        names = sorted(before.dirs[before.dirs[before.top][b"root"]])
        rng.shuffle(names)
        argv = ["-f", conf, "-s", "s", "-r", "--"] + names
        rootino = before.dirs[before.top][b"root"]
        run = Run(before, seq, [(rootino, n) for n in names], True)
        cwd = root
    else:
        argv = ["-r", "-f", conf, "-s", "s", b"root"]
        run = Run(before, seq, [(before.top, b"root")], True)
        cwd = top
    mon = rng.choice([None, {"MON_DIR": "r"}, {"MON_DIR": "s7ru"}])
    r = case.run(argv, cwd=os.fsdecode(cwd), mon=mon)
    after = Snap(top, content=False)
    judge(run, after, {"clean", "complete"}, stderr=r.err)
    case.count("renamed", run.facts["performed"])
    case.count("largest_directory_sum", max(len(e) for e in before.dirs.values()))
    case.note((shape, len(before.meta), case.index), dict(shape=shape, entries=len(before.meta), renamed=run.facts["performed"]))


class C07(Check):
    prop = "C07"
    scale = 1.5
    technique = "runtime monitoring: exactly-once oracle over snapshots, perturbed directory listings"
    rule = "distinct trees with renames; directory listings shuffled, redelivered and untyped by the monitor"
    need_mon = True
    parts = [("tree", c07, 1800, 22000), ("large", c07_large, 24, 160)]


# ---------------------------------------------------------------- C08

def c08(case):
    rng = case.rng
    watch = rng.random() < 0.5
    one = One(case, Spec(collide=0.4, specials=0.2), dry=True, mon={} if watch else None)
    b, a = one.before, one.after
    try:
        T.check_identity(b, a)
        if b.dirs != a.dirs:
            raise Violation("changed", "a dry run changed names")
        if b.mtime != a.mtime:
            raise Violation("changed", "a dry run changed modification times")
        for e in one.res.events:
            if e.name in MUTATING and e.ret >= 0 and e.a not in (b"/dev/null",):
                raise Violation("mutating-call", "a dry run made the call %r" % e)
        wanted, optional, refused = {}, {}, 0
        for key in one.run.scope:
            t = one.run.target(key)
            if t is None:
                continue
            if t in b.dirs[key[0]]:
                refused += 1
            elif len(t) > 255:
                optional[key] = t
            else:
                wanted[key] = t
        T.check_listing(one.run, a, one.res.out, wanted, optional, one.plan.cwd_ino, one.top, "dry-run")
    except Violation as v:
        raise one.detail(v)
    one.run.facts = dict(performed=0, kept=refused)
    case.count("listed", len(wanted))
    case.count("not_free", refused)
    one.note(wanted)


def c08_bytes(case):
    """Names of any bytes: the listing as a whole, with the directories as the arguments name them."""
    rng = case.rng
    seq = rng.choice([M.Sequence("s", [M.F("lower")]), M.Sequence("s", [M.F("wipeup")]), M.Sequence("s", [M.F("uncgi")]),
                      M.Sequence("s", [M.F("uncgi"), M.F("lower")]), M.Sequence("s", [M.F("max_length", length=9)]), None])
    one = One(case, Spec(newline=True, escapes=0.1, collide=0.3, long_top=0, specials=0.15, namer=odd if rng.random() < 0.7 else None),
              seq=seq, dry=True, mode=rng.choice(["rel", "here", "entries", "abs", "entries-here"]))
    b, a, out = one.before, one.after, one.res.out
    path = {}

    def paths(d, p):
        path[d] = p
        for n, i in b.dirs[d].items():
            if i in b.dirs:
                paths(i, p + b"/" + n)
    try:
        if b.dirs != a.dirs:
            raise Violation("changed", "a dry run changed names")
        mode = one.plan.mode
        paths(one.plan.rootino, {"rel": b"root", "here": b".", "entries": b"root", "abs": one.root, "entries-here": b""}[mode])
        path[b.top] = {"abs": one.top}.get(mode, b"")
        want = []
        for key in one.run.scope:
            t = one.run.target(key)
            if t is None or t in b.dirs[key[0]]:
                continue
            if len(t) > 255:
                return
            p = path[key[0]]
            if mode == "entries-here":
                p = p.lstrip(b"/")
                if one.plan.argv[one.run.scope[key]].startswith(b"./"):
                    p = (b"./" + p).rstrip(b"/")
            want.append((p, key[1], t))
        rest = out
        for a_ in one.plan.argv:
            k = rest.find(b"Scanning: " + a_ + b"\n")
            if k >= 0:
                rest = rest[:k] + rest[k + len(a_) + 11:]
        # the longest first: what is part of another line is not taken for it
        # (should a line look like parts of others, the length still tells)
        total = sum(len(o) + len(n) + 5 + 2 * (len(p) + 1 if p else 0) for p, o, n in want)
        for p, o, n in sorted(want, key=lambda w: -len(w[0] + w[1] + w[2])):
            q = p + b"/" if p else b""
            line = q + o + b" -> " + q + n + b"\n"
            k = rest.find(line)
            if k < 0:
                if len(rest) == total:
                    case.count("ambiguous")
                    rest = b""
                    break
                raise Violation("dry-run-missing", "not printed: %s -> %s in %s" % (printable(o), printable(n), printable(p)))
            rest = rest[:k] + b"\1" * len(line) + rest[k + len(line):]
        rest = rest.replace(b"\1", b"")
        if b" -> " in rest:
            raise Violation("dry-run-extra", "also printed: %s" % printable(rest[:400]))
    except Violation as v:
        raise one.detail(v)
    one.run.facts = dict(performed=0, kept=0)
    case.count("listed", len(want))
    case.count("listed_with_newline", sum(b"\n" in o + n for _, o, n in want))
    one.note(want)


def odd(rng):
    return b"".join(rng.choice([b"\n", b" -> ", b"->", b"a", b"B", b"C ", b"--", b"x", b"_", b"%0a", b"%0A", b"\n\n", b"\r", b"%41"]) for _ in range(rng.randint(1, 7)))


class C08(Check):
    prop = "C08"
    technique = "runtime monitoring: no-effect monitor (snapshots and call log) and listing oracle"
    rule = "distinct trees whose dry run has at least one rename to list"
    need_mon = True
    parts = [("tree", c08, 2200, 28000), ("bytes", c08_bytes, 1000, 12000)]


# ---------------------------------------------------------------- C09

def c09(case):
    rng = case.rng
    verbose = rng.random() < 0.75

    def prepare(o):
        # directories where renaming fails
        dirs = [os.path.join(r, d) for r, ds, _ in os.walk(o.root) for d in ds if not os.path.islink(os.path.join(r, d))]
        for p in rng.sample(dirs, min(len(dirs), rng.choice([0, 0, 1, 2]))):
            os.chmod(p, 0o555)
    mon = None
    if rng.random() < 0.3:
        mon = {"MON_FAIL": "rename:%d:%d" % (rng.randint(1, 8), rng.choice([5, 13, 18, 28, 30, 17]))}
    one = One(case, Spec(collide=0.35, hard=0), verbose=verbose, dry=False, prepare=prepare, mon=mon)
    out = one.res.out
    try:
        if not verbose:
            if out:
                raise Violation("stdout", "a run without verbose wrote to standard output: %s" % printable(out))
            performed = one.judge(set())
        else:
            performed = one.judge(set())
            optional = {}
            for key in one.run.scope:
                t = one.run.target(key)
                if t is not None and key not in performed and key[1] in one.res.err:
                    optional[key] = t
            order = T.check_listing(one.run, one.after, out, performed, optional, one.plan.cwd_ino, one.top, "verbose")
            lines = out.split(b"\n")
            first = {}
            for k, a in enumerate(one.plan.argv):
                for i, l in enumerate(lines):
                    if a in l and T.RENAME not in l and i not in first.values():
                        first[k] = i
                        break
                else:
                    raise Violation("announce", "argument %s was not announced" % printable(a))
            for i, key in order:
                k = one.run.scope[key]
                a = one.plan.argv[k]
                if not any(a in l and T.RENAME not in l for l in lines[:i]):
                    raise Violation("announce", "a rename is printed before its argument %s is announced" % printable(a))
    except Violation as v:
        raise one.detail(v)
    case.count("verbose_runs" if verbose else "silent_runs")
    one.note(one.run.facts["performed"] or one.run.facts["kept"])


def c09_named(case):
    """Arguments one after the other, some of them more than once or missing: announced, then renamed, then the next."""
    rng = case.rng
    top = os.path.join(os.fsencode(case.dir()), b"top")
    os.mkdir(top)
    seq = rng.choice([M.Sequence("s", M.SAFE_WIPE()), M.Sequence("s", [M.F("lower")]), M.Sequence("s", [M.F("uncgi")])])
    conf = write_conf(case, seq, [])
    verbose = rng.random() < 0.85
    pool, state = [], {}
    for k in range(rng.choice([1, 2, 3, 6, 20])):
        n = rng.choice([b"F (%d) A", b"f%%20(%d)", b"plain%d.", b"d%d/G H.%%41", b"d%d/x", b"no such(%d)", b"Link %d%%42", b"D %d%%43", b"-x %d!", b" %d"]) % k
        pool.append(n)
        q = os.path.join(top, n)
        if n.startswith(b"no such"):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if n.startswith(b"Link"):
            os.symlink(b"x", q)
        elif n.startswith(b"D "):
            os.mkdir(q)
        else:
            open(q, "wb").write(n)
        state[n] = n
    argv = []
    for n in pool:
        argv += [n] * rng.choice([1, 1, 1, 2, 3])
    if rng.random() < 0.5:
        rng.shuffle(argv)
    special = rng.random() < 0.5
    r = case.run((["-v"] if verbose else []) + (["--special"] if special else []) + (["-r"] if rng.random() < 0.3 else []) +
                 ["-f", conf, "-s", "s", "--"] + argv, cwd=os.fsdecode(top))
    want, missing = [], 0
    for a in argv:
        want.append(("argument", a))
        if a not in state:
            missing += 1
            continue
        if a.startswith(b"Link") and not special:
            continue
        new = os.path.join(os.path.dirname(a), M.target(seq, os.path.basename(a)))
        if new != a and new not in state:
            want.append(("rename", a, new))
            state[new] = state.pop(a)
    got = []
    for l in r.out.split(b"\n")[:-1]:
        if T.RENAME in l:
            d, o, n = T.parse_line(l)
            got.append(("rename", os.path.join(d, o), os.path.join(d, n)))
        else:
            hit = [a for a in pool if l.endswith(a) or l.endswith(b"/" + a)]
            got.append(("argument", max(hit, key=len) if hit else l))
    have = {os.path.relpath(os.path.join(root, n), top) for root, ds, fs in os.walk(top) for n in ds + fs}
    info = dict(arguments=argv, sequence=seq.conf(), stdout=r.out[:2000], stderr=r.err[:1500])
    if r.rc != 0:
        raise Violation("status", "the run ended with %d" % r.rc, **info)
    if not set(state) <= have:
        raise Violation("renames", "%s not there after the run" % printable(sorted(set(state) - have)), **info)
    if got != (want if verbose else []):
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Violation("announce", "line %d is %s instead of %s" % (k + 1, printable(got[k:k + 1]), printable(want[k:k + 1])), **info)
    if len(r.err.split(b"\n")) - 1 < missing:
        raise Violation("missing", "%d missing arguments, but %d messages" % (missing, len(r.err.split(b"\n")) - 1), **info)
    case.count("arguments", len(argv))
    case.count("repeated", len(argv) - len(pool))
    case.note((tuple(argv), seq.conf(), verbose))


class C09(Check):
    prop = "C09"
    technique = "runtime monitoring: output of the run matched against the renames observed in snapshots"
    rule = "distinct trees with performed or refused renames"
    need_mon = True
    parts = [("tree", c09, 2200, 28000), ("named", c09_named, 400, 6000)]


CHECKS = [C01, C02, C04, C05, C06, C07, C08, C09]
