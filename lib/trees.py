"""Random directory trees, snapshots by inode, and the oracle for renaming runs."""
import errno, itertools, os, re, socket, stat

from . import model as M
from .core import Violation, printable

MTIME = 1_000_000_000

STEMS = [b"a", b"b", b"ab", b"file", b"My File", b"note", b"x", b"long name here", b"A", b"B", b"caf\xc3\xa9",
         b"na\xc3\xafve", b"\xe2\x82\xac5", b"\xe9t\xe9", b"\x93q\x94", b"100%", b"CVS", b"{arch}", b"\xff\xfe",
         b"\xe4\xb8\xad\xe6\x96\x87", b"t\xc2\xa0b", b"\xcb\x86", b"..."]
GLUE = [b" ", b"_", b"-", b"  ", b"_-_", b"%20", b"+", b"&", b"'", b"(", b")", b"[1]", b"!", b"$", b"*", b":", b"\\",
        b"|", b"?", b"\"", b"`", b"<", b">", b";", b"@", b"#", b"{", b"}", b"~", b"=", b",", b"\t", b"\x01", b"\x7f", b"."]
TAILS = [b"", b"", b"", b".txt", b".TXT", b".tar.gz", b" .txt", b"_.txt", b".", b"..", b" ", b"-", b"_", b"%2e", b".c "]
HEADS = [b"", b"", b"", b"", b"-", b"_", b"#", b" ", b"--", b"(", b"%2D"]

# decode to names that are not usable, or that point elsewhere
ESCAPES = [b"%2e", b"%2e%2e", b"%2E.", b".%2e", b"%2f", b"%2fetc", b"..%2fup", b"..%2Foutside%2fin", b"a%2fb", b"sub%2Fx",
           b"%2e%2e%2fup", b"d1%2Fin", b"..%2f..%2ffar", b"%2e%2f", b"./".replace(b"/", b"%2f"), b"%252f", b"%2e%2e%2e",
           b"%00", b"a%00b", b"-", b"_", b"#", b"--", b"_-", b"#-#", b"?", b"*", b"'", b"(", b"+", b"%20", b"-.", b"_..",
           b"..-", b"#..", b"-.-", b"!", b"\x01", b"\xff", b"%ff", b"%2E%2e-"]


def rand_name(rng, newline=False, escapes=0.0, longs=0.03):
    r = rng.random()
    if r < escapes:
        return rng.choice(ESCAPES)
    r = rng.random()
    if r < longs:
        n = rng.choice([250, 254, 255, 200, 128, 256 // 2 + 1])
        unit = rng.choice([b"a", b"a b", b"\xc3\xa9", b"-_", b"& ", b"%41", b"A.", b"x y.z"])
        s = (unit * 256)[:n]
    elif r < longs + 0.08:
        s = bytes(rng.choice([c for c in range(1, 256) if c != 0x2F]) for _ in range(rng.randint(1, 12)))
    else:
        s = rng.choice(HEADS) + rng.choice(STEMS)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            s += rng.choice(GLUE) + rng.choice(STEMS)
        s += rng.choice(TAILS)
    if not newline:
        s = s.replace(b"\n", b" ").replace(b" -> ", b"__")
    s = s[:255]
    if s in (b"", b".", b".."):
        return b"z"
    return s


def colliding(rng, n):
    """Names of which many clean to the same."""
    a, b = rng.choice(STEMS[:10]), rng.choice(STEMS[:10])
    out = []
    for _ in range(n):
        out.append(rng.choice([b"", b"", b"-", b"_", b" "]) + a + rng.choice(GLUE[:6] + [b"(", b"*", b"_", b"_"]) + b +
                   rng.choice([b"", b"", b".txt"]))
    return out


class Spec:
    """How a tree is to look."""
    depth, fanout, dirs, specials, hidden, ignored, hard, escapes, newline, collide, modes = \
        3, (0, 9), 0.28, 0.15, 0.08, 0.06, 0.05, 0.03, False, 0.25, 0.1
    ignore_names = [b"{arch}"]
    namer = None
    sparse, odd_times, long_top, dirmodes = 0.01, 0.03, 0.04, 0.04

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Gen:
    def __init__(self, case, spec):
        self.rng, self.spec, self.case = case.rng, spec, case
        self.seq = 0
        self.times = []
        self.files = []
        self.made = []
        self.pool = []

    def names(self, n):
        rng, sp = self.rng, self.spec
        out, tries = [], 0
        col = colliding(rng, 12) if rng.random() < sp.collide * 2 else []
        while len(out) < n and tries < 4 * n + 8:
            tries += 1
            r = rng.random()
            if sp.namer and r < 0.9:
                s = sp.namer(rng)
            elif r < sp.hidden:
                s = b"." + rand_name(rng, sp.newline)[:200]
            elif r < sp.hidden + sp.ignored:
                s = rng.choice(sp.ignore_names)
                if rng.random() < 0.4:
                    s = rng.choice([s + b" ", s[:-1] + b"?", b" " + s, s.upper() + b" ", s.lower() + b"(", s + s,
                                    s.swapcase(), b"-" + s])
            elif col and r < 0.6:
                s = rng.choice(col)
            else:
                s = rand_name(rng, sp.newline, sp.escapes)
            if s in (b"", b".", b"..") or b"/" in s or b"\0" in s or len(s) > 255 or s in out:
                continue
            if not sp.newline and (b"\n" in s or b" -> " in s):
                continue
            if not sp.newline and getattr(sp, "seq", None) and re.search(b"\n| -> ", sp.seq.run(s)):
                continue
            out.append(s)
        # sometimes the cleaned name of another is there already, as any kind of entry
        if getattr(sp, "seq", None) and out:
            for s in list(out):
                if rng.random() < sp.collide:
                    t = sp.seq.run(s)
                    if M.usable(t) and t not in out and len(t) <= 255 and b"\0" not in t:
                        out.append(t)
            rng.shuffle(out)
        return out

    def make(self, path, depth, n=None):
        rng, sp = self.rng, self.spec
        n = rng.randint(*sp.fanout) if n is None else n
        for name in self.names(n):
            self.entry(os.path.join(path, name), depth)

    def entry(self, p, depth, kind=None):
        rng, sp = self.rng, self.spec
        self.seq += 1
        r = rng.random()
        if kind is None:
            if depth > 0 and r < sp.dirs:
                kind = "dir"
            elif r < sp.dirs + sp.specials:
                kind = rng.choice(["fifo", "sock", "dangling", "linkfile", "linkdir", "linkup", "linkself", "linktree"])
            elif r < sp.dirs + sp.specials + sp.hard and self.files:
                kind = "hard"
            else:
                kind = "file"
        try:
            if kind == "dir":
                os.mkdir(p)
                self.made.append(p)
                if rng.random() > 0.15:
                    self.make(p, depth - 1)
                self.times.append(p)
                if rng.random() < sp.dirmodes:
                    os.chmod(p, rng.choice([0o1777, 0o2755, 0o700, 0o1755, 0o3775, 0o711]))
            elif kind == "file":
                with open(p, "wb") as f:
                    f.write(b"" if rng.random() < 0.1 else b"content %d of %d" % (self.seq, self.case.index))
                    if rng.random() < sp.sparse:
                        f.truncate(rng.choice([1 << 16, (1 << 20) + 1, 50 << 20, (1 << 31) - 1, (2 << 30) + 5, (1 << 32) + 7, 5 << 40]))
                if rng.random() < sp.modes:
                    os.chmod(p, rng.choice([0o600, 0o755, 0o400, 0o4755, 0o2755, 0o6711, 0o1644, 0o000]))
                self.times.append(p)
                self.files.append(p)
            elif kind == "hard":
                # mostly in the same directory, also under the cleaned name
                same = [f for f in self.files if os.path.dirname(f) == os.path.dirname(p)]
                src = rng.choice(same or self.files)
                if os.lstat(src).st_nlink < 4:
                    os.link(src, p)
                    self.files.append(p)
            elif kind == "fifo":
                os.mkfifo(p)
            elif kind == "sock":
                if len(p) < 100:
                    s = socket.socket(socket.AF_UNIX)
                    s.bind(p)
                    s.close()
                else:
                    os.mkfifo(p)
            elif kind == "dangling":
                os.symlink(b"no such %d" % self.seq, p)
            elif kind == "linkfile" and self.files:
                os.symlink(os.path.relpath(rng.choice(self.files), os.path.dirname(p)), p)
            elif kind == "linktree" and self.made:
                os.symlink(os.path.relpath(rng.choice(self.made), os.path.dirname(p)), p)
            elif kind == "linkup":
                os.symlink(b"..", p)
            elif kind == "linkself":
                os.symlink(b".", p)
            else:
                # a directory that is elsewhere, with contents that need cleaning
                os.symlink(os.path.relpath(self.outside, os.path.dirname(p)), p)
        except OSError as e:
            if e.errno not in (errno.EEXIST, errno.ENAMETOOLONG, errno.EMLINK, errno.EINVAL):
                raise

    def finish(self):
        for p in reversed(self.times):
            t = MTIME + self.rng.randint(0, 10 ** 8)
            if self.rng.random() < self.spec.odd_times:
                t = self.rng.choice([0, 1, -1, -10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 4 * 10 ** 9])
            os.utime(p, (t, t), follow_symlinks=False)


def build(case, spec, rootname=b"root"):
    """case dir: root/ (the tree), outside/ (targets of links, must never change), up files."""
    top = os.fsencode(case.dir())
    if case.rng.random() < spec.long_top:
        # far down, so that absolute paths are long
        while len(top) < 2300:
            top = os.path.join(top, rng_dir(case.rng))
        os.makedirs(top)
        case.count("long_paths")
    g = Gen(case, spec)
    g.outside = os.path.join(top, b"outside")
    os.mkdir(g.outside)
    for n in (b"in", b"o p", b"q&r"):
        g.entry(os.path.join(g.outside, n), 0, "file")
    os.mkdir(os.path.join(g.outside, b"d d"))
    g.entry(os.path.join(g.outside, b"d d", b"e e"), 0, "file")
    g.files = []
    root = os.path.join(top, rootname)
    os.mkdir(root)
    g.make(root, spec.depth)
    g.times.append(root)
    g.finish()
    return top, root, g


def rng_dir(rng):
    return rng.choice([b"far down", b"p" * 200, b"q" * 99, b"d d" * 60, b"x", b"long (dir) " * 20])


def read_content(p, size):
    """What is in a file; of a large one the ends."""
    with open(p, "rb") as f:
        if size <= 65536:
            return f.read()
        a = f.read(4096)
        f.seek(size - 4096)
        return (size, a, f.read())


class Snap:
    """dirs: inode -> {name: inode}; meta: inode -> facts that must not change."""

    def __init__(self, top, content=True):
        self.top = os.lstat(top).st_ino
        self.dirs, self.meta, self.type, self.mtime = {}, {}, {}, {}
        self.unreadable = set()
        self._walk(top, content)

    def _walk(self, path, content):
        st = os.lstat(path)
        d = self.dirs[st.st_ino] = {}
        try:
            entries = list(os.scandir(path))
        except PermissionError:
            self.unreadable.add(st.st_ino)
            return
        for e in entries:
            p = e.path
            st = os.lstat(p)
            i = st.st_ino
            d[e.name] = i
            k = stat.S_IFMT(st.st_mode)
            self.type[i] = k
            data = None
            if k == stat.S_IFREG and content:
                try:
                    data = read_content(p, st.st_size)
                except PermissionError:
                    data = "unreadable"
            elif k == stat.S_IFLNK:
                data = os.readlink(p)
            self.meta[i] = (k, st.st_mode, st.st_uid, st.st_gid, st.st_nlink if k != stat.S_IFDIR else 0, data,
                            st.st_mtime_ns if k != stat.S_IFDIR else 0)
            self.mtime[i] = st.st_mtime_ns
            if k == stat.S_IFDIR:
                self._walk(p, content)

    def names(self):
        """inode -> sorted list of (parent inode, name)"""
        r = {}
        for d, es in self.dirs.items():
            for n, i in es.items():
                r.setdefault(i, []).append((d, n))
        for v in r.values():
            v.sort()
        return r


class Run:
    """A planned run: what is in scope, from the snapshot before it."""

    def __init__(self, snap, seq, args, recurse=False, special=False, ignore=(), dry=False, verbose=False):
        # args: list of (parent inode or None for '.'-like, name or inode of the directory)
        self.snap, self.seq, self.recurse, self.special, self.ignore = snap, seq, recurse, special, set(ignore)
        self.dry, self.verbose = dry, verbose
        self.scope = {}      # (dir, name) -> argument number
        self.args = args
        for k, (parent, name) in enumerate(args):
            if parent is None:
                self.walk(name, k)
                continue
            ino = snap.dirs.get(parent, {}).get(name)
            if ino is None:
                continue
            t = snap.type[ino]
            if t == stat.S_IFDIR:
                self.scope[(parent, name)] = k
                self.walk(ino, k)
            elif t == stat.S_IFREG or special:
                self.scope[(parent, name)] = k

    def walk(self, d, k):
        for name, ino in self.snap.dirs[d].items():
            if name[:1] == b"." or name in self.ignore:
                continue
            t = self.snap.type[ino]
            if t == stat.S_IFDIR:
                self.scope[(d, name)] = k
                if self.recurse:
                    self.walk(ino, k)
            elif t == stat.S_IFREG or self.special:
                self.scope[(d, name)] = k

    def target(self, key):
        """Cleaned name of an entry in scope, or None when it has to keep its name."""
        name = key[1]
        if key not in self.scope or M.protected(name):
            return None
        t = self.seq.run(name)
        if t == name or not M.usable(t):
            return None
        return t


def describe(snap, key):
    return printable(b"<%d>/" % key[0] + key[1])


def check_identity(before, after, extra=(), prop_key="identity"):
    """C01: same objects, same facts, same number of names, and nothing else. extra: inodes allowed to be new."""
    for i, m in before.meta.items():
        n = after.meta.get(i)
        if n is None:
            raise Violation("lost", "an object is gone: %s" % printable(m), names=before.names()[i],
                            after=[sorted(v) for v in after.dirs.values()])
        if n != m:
            raise Violation("altered", "%s became %s" % (printable(m), printable(n)), names=before.names()[i])
    new = set(after.meta) - set(before.meta) - set(extra)
    if new:
        raise Violation("created", "new objects: %s" % printable([(after.meta[i], after.names()[i]) for i in new]))
    bn, an = before.names(), after.names()
    for i in before.meta:
        if len(bn[i]) != len(an.get(i, [])):
            raise Violation("names", "object had names %s and has %s" % (printable(bn[i]), printable(an.get(i))))
    for d, es in before.dirs.items():
        if d in before.mtime and d in after.dirs and es == after.dirs[d] and before.mtime[d] != after.mtime.get(d):
            raise Violation("dir-mtime", "modification time of an unchanged directory changed",
                            names=printable(bn[d]))


def moves(before, after):
    """Every (dir, old name) -> new name, within its directory; None where the entry left its directory.

    Several names of one object in one directory are matched later (ambiguous): yields (dir, ino, olds, news)."""
    for d, es in before.dirs.items():
        aes = after.dirs.get(d)
        if aes is None:
            yield d, None, [], []
            continue
        by = {}
        for n, i in es.items():
            by.setdefault(i, ([], []))[0].append(n)
        for n, i in aes.items():
            by.setdefault(i, ([], []))[1].append(n)
        for i, (o, n) in by.items():
            yield d, i, o, n


def judge(run, after, aspects, exempt=lambda key: False, extra=(), stderr=None, intruders=()):
    """Check the outcome of a run that was not interrupted.

    aspects: subset of {identity, dir, clean, scope, hidden, complete, collision}
    Returns {(dir, old): new} of the renames performed (one consistent assignment)."""
    before = run.snap
    if "identity" in aspects:
        check_identity(before, after, extra)
    performed = {}
    facts = dict(scope=len(run.scope))
    for d, i, olds, news in moves(before, after):
        if i is None:
            continue
        if i in extra:
            continue
        if len(olds) != len(news):
            if "dir" in aspects or "clean" in aspects:
                raise Violation("left-directory", "in one directory an object had names %s and has %s" % (
                    printable(sorted(olds)), printable(sorted(news))))
            continue
        if set(olds) == set(news):
            continue
        gone = [o for o in olds if o not in news]
        come = [n for n in news if n not in olds]
        # find an assignment of old names to new ones allowed by the sequence
        best = None
        allo = olds if len(olds) > 1 else gone
        alln = news if len(olds) > 1 else come
        if len(allo) > 6:
            allo, alln = gone, come
        for perm in itertools.permutations(alln):
            ok = all(n == o or run.target((d, o)) == n for o, n in zip(allo, perm))
            if ok:
                best = perm
                break
        if best is None:
            out = [o for o in gone if (d, o) not in run.scope]
            if out and len(gone) == 1:
                if "scope" in aspects:
                    raise Violation("out-of-scope", "%s, which is not in scope, became %s" % (
                        printable(out), printable(come)))
            if "clean" in aspects:
                raise Violation("wrong-name", "%s became %s; the sequence gives %s" % (
                    printable(gone), printable(come), printable([run.seq.run(o) for o in gone])))
            if "scope" in aspects and out and len(out) == len(gone):
                raise Violation("out-of-scope", "%s, not in scope, became %s" % (printable(out), printable(come)))
            if "usable" in aspects:
                for o, n in zip(gone, come):
                    if run.target((d, o)) is None and (d, o) in run.scope:
                        raise Violation("unusable", "%s became %s, its cleaned form %s is not usable" % (
                            printable(o), printable(n), printable(run.seq.run(o))))
            continue
        for o, n in zip(allo, best):
            if o != n:
                performed[(d, o)] = n
    kept = refused = 0
    for key in run.scope:
        t = run.target(key)
        if t is None or key in performed:
            continue
        d, o = key
        if d not in after.dirs:
            continue
        kept += 1
        names = after.dirs[d]
        if exempt(key):
            continue
        if len(t) > 255:
            continue
        contended = t in before.dirs[d] or t in names
        if not contended and "complete" in aspects:
            raise Violation("not-cleaned", "%s in scope kept its name; %s was free" % (printable(o), printable(t)),
                            directory=printable(sorted(names)))
        if contended:
            refused += 1
            # which of several names of one object got the new name cannot be told
            same = [n for n, i in before.dirs[d].items() if i == before.dirs[d][o] and run.target((d, n)) == t]
            if "collision" in aspects and stderr is not None and not any(n in stderr for n in same):
                raise Violation("not-reported", "%s was refused (for %s) without a message" % (
                    printable(o), printable(t)), before=sorted(before.dirs[d].items()), after=sorted(names.items()))
    facts.update(performed=len(performed), kept=kept, refused=refused)
    run.facts = facts
    return performed


# ---- standard output ----

RENAME = b" -> "


def norm(p):
    p = re.sub(b"/+", b"/", p)
    while p.startswith(b"./") and len(p) > 2:
        p = p[2:]
    return p


def resolve_dirs(path, cwd_ino, top_path, before, after):
    """Inodes of the directory a printed path may mean, using names from before or after."""
    path = norm(path)
    cur = {cwd_ino}
    if path.startswith(b"/"):
        tp = norm(top_path)
        if path == tp or path.startswith(tp + b"/"):
            cur = {before.top}
            path = path[len(tp):]
        else:
            return set()
    parents = {}
    for s in (before, after):
        for d, es in s.dirs.items():
            for n, i in es.items():
                if i in s.dirs:
                    parents.setdefault(i, set()).add(d)
    for comp in path.split(b"/"):
        if comp in (b"", b"."):
            continue
        cur = steps(cur, comp, before, after, parents, 0)
    return cur


def name_of(snap, d, ino):
    return next(n for n, i in sorted(snap.dirs[d].items()) if i == ino)


def steps(cur, comp, before, after, parents, level):
    nxt = set()
    for d in cur:
        if comp == b"..":
            nxt |= parents.get(d, set())
            continue
        if comp == b".":
            nxt.add(d)
            continue
        for s in (before, after):
            i = s.dirs.get(d, {}).get(comp)
            if i is None:
                continue
            if i in s.dirs:
                nxt.add(i)
            elif s.type[i] == stat.S_IFLNK and level < 5:
                at = {d}
                for c in s.meta[i][5].split(b"/"):
                    at = steps(at, c, before, after, parents, level + 1)
                nxt |= at
    return nxt


def rename_lines(out):
    return [(k, l) for k, l in enumerate(out.split(b"\n")) if RENAME in l]


def parse_line(line):
    """-> (dir path, old, new) or None"""
    a, b = line.split(RENAME, 1)
    da, _, oa = a.rpartition(b"/")
    db, _, nb = b.rpartition(b"/")
    if a.startswith(b"/") and not da:
        da = b"/"
    if b.startswith(b"/") and not db:
        db = b"/"
    if da != db:
        return None
    return da, oa, nb


def check_listing(run, after, out, wanted, optional, cwd_ino, top_path, key="listing"):
    """Every wanted (dir, old)->new is listed exactly once and nothing else (but optional ones, at most once)."""
    left = dict(wanted)
    opt = dict(optional)
    order = []
    for k, line in rename_lines(out):
        p = parse_line(line)
        if p is None:
            raise Violation(key, "a printed rename changes the directory: %s" % printable(line))
        dpath, old, new = p
        cands = [(d, old) for d in resolve_dirs(dpath or b".", cwd_ino, top_path, run.snap, after)]
        hit = [c for c in cands if left.get(c) == new]
        if hit:
            del left[hit[0]]
            order.append((k, hit[0]))
            continue
        hit = [c for c in cands if opt.get(c) == new]
        if hit:
            del opt[hit[0]]
            order.append((k, hit[0]))
            continue
        raise Violation(key + "-extra", "printed, but not a rename that is due: %s" % printable(line))
    if left:
        raise Violation(key + "-missing", "not printed: %s" % printable(
            ["%s -> %s" % (printable(k[1]), printable(v)) for k, v in list(left.items())[:5]]),
            stdout=printable(out))
    return order


# ---- random sequences and ways to name the arguments ----

def rand_table_filter(rng, case):
    rows = {}
    for _ in range(rng.randint(0, 8)):
        c = rng.choice([0x20, 0x26, 0x41, 0x61, 0x62, 0x2D, 0x5F, 0x2E, 0xE9, 0x25, rng.randint(1, 255)])
        rows[c] = rng.choice([b"", b"_", b"-", b"..", b".", b"xx", b"_and_", b"-" * 9, b"a/b", b"/", b"Z", b"../o", b"\xc3\xa9"])
    default = rng.choice([None, None, None, b"_", b"#", b"dd"])
    return M.Table(rows, default)


def table_text(t):
    lines = []
    if t.default:
        lines.append(b"default \"%s\"" % t.default)
    lines.append(b"start")
    for c, v in t.rows.items():
        lines.append(b"0x%02x \"%s\"" % (c, v))
    lines.append(b"end")
    return b"\n".join(lines) + b"\n"


def rand_sequence(rng, case, name="s", shipped=0.6, wild=0.25, tables=True):
    if rng.random() < shipped:
        s = rng.choice(M.shipped())
        return M.Sequence(name, s.filters)
    fs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice(["safe", "utf_8", "iso8859_1", "uncgi", "wipeup", "wipeup", "lower", "max_length", "custom", "uncgi"])
        if k == "custom":
            if not tables or rng.random() > wild * 2:
                continue
            t = rand_table_filter(rng, case)
            p = os.path.join(case.dir(), "t%d.tbl" % len(fs))
            open(p, "wb").write(table_text(t))
            fs.append(M.Filter(rng.choice(["safe", "safe", "utf_8", "iso8859_1"]), filename=p, table=t))
        elif k == "wipeup":
            fs.append(M.Filter(k, remove_trailing=rng.random() < 0.6))
        elif k == "max_length":
            fs.append(M.Filter(k, length=rng.choice([1, 2, 3, 5, 8, 16, 30, 100])))
        elif k in M.KIND_TABLE:
            fs.append(M.Filter(k, builtin=rng.choice([M.KIND_TABLE[k]] + (["cp1252"] if k == "iso8859_1" else []))))
        else:
            fs.append(M.Filter(k))
    if not fs:
        fs = M.SAFE_WIPE()
    return M.Sequence(name, fs)


def write_conf(case, seq, ignore=(), others=()):
    p = os.path.join(case.dir(), "conf.rc")
    text = "".join(s.conf() for s in [*others, seq])
    if ignore:
        text += "ignore {\n" + "".join('\tfilename "%s";\n' % os.fsdecode(i) for i in ignore) + "};\n"
    with open(p, "wb") as f:
        f.write(os.fsencode(text))
    return p


class Plan:
    """A random way of naming what is to be cleaned. cwd, argv (file arguments), args for Run."""

    def __init__(self, case, top, root, snap, seq, mode=None):
        rng = case.rng
        rootino = snap.dirs[snap.top][os.path.basename(root)]
        self.cwd, self.cwd_ino = top, snap.top
        rel = os.path.basename(root)
        mode = mode or rng.choice(["rel", "rel", "dot", "slash", "abs", "here", "entries", "entries", "entries-here", "up", "double",
                                   "detour", "deep"])
        self.mode = mode
        self.args, self.argv = [], []
        if mode in ("rel", "dot", "slash", "abs", "double"):
            if mode == "slash" and seq.run(rel) != rel:
                mode = "rel"
            a = {"rel": rel, "dot": b"./" + rel, "slash": rel + b"/", "abs": root, "double": b".//" + rel}[mode]
            self.argv = [a]
            self.args = [(None, rootino) if mode == "slash" else (snap.top, rel)]
        elif mode == "here":
            self.cwd, self.cwd_ino = root, rootino
            self.argv, self.args = [b"."], [(None, rootino)]
        elif mode == "up":
            subs = [(n, i) for n, i in snap.dirs[rootino].items() if i in snap.dirs]
            if not subs:
                self.cwd, self.cwd_ino = root, rootino
                self.argv, self.args = [b"."], [(None, rootino)]
            else:
                n, i = rng.choice(subs)
                self.cwd, self.cwd_ino = os.path.join(root, n), i
                self.argv, self.args = [b".."], [(None, rootino)]
        elif mode == "detour":
            # through directories and links, and back
            parents = {i: d for d, es in snap.dirs.items() for n, i in es.items() if i in snap.dirs}
            up = {i: {d} for i, d in parents.items()}
            ways = {}        # directory -> (entry of the tree's root on the way, way), the last directory before it
            for n, i in sorted(snap.dirs[rootino].items()):
                if i in snap.dirs:
                    ways.setdefault(rootino, []).append((i, rel + b"/" + n + b"/.."))
                elif snap.type[i] == stat.S_IFLNK:
                    at = steps({rootino}, n, snap, snap, up, 0)
                    if len(at) == 1:
                        x = at.pop()
                        ways.setdefault(x, []).append((i, rel + b"/" + n))
                        if x in parents:
                            ways.setdefault(parents[x], []).append((i, rel + b"/" + n + b"/.."))
                            if parents[x] == snap.top:
                                ways.setdefault(rootino, []).append((i, rel + b"/" + n + b"/../" + rel))
            at = rng.choice(sorted(ways)) if ways else None
            via = rng.sample(ways[at], min(len(ways[at]), rng.choice([1, 1, 2]))) if ways else []
            # what is on the way keeps its name
            keep = {i for i, _ in via} | {x for i, _ in via for x in steps({rootino}, name_of(snap, rootino, i), snap, snap, up, 0)} | {rootino}
            names = [n for n, i in sorted(snap.dirs.get(at, {}).items()) if i not in keep]
            rng.shuffle(names)
            if names and at != snap.top:
                for n in names[:rng.randint(1, len(names))]:
                    self.argv.append(rng.choice(via)[1] + b"/" + n)
                    self.args.append((at, n))
                case.count("detours")
            else:
                self.argv, self.args = [rel], [(snap.top, rel)]
        elif mode == "deep":
            # entries of some directory of the tree
            at, path = rootino, rel
            while True:
                subs = [(n, i) for n, i in sorted(snap.dirs[at].items()) if i in snap.dirs]
                if not subs or rng.random() < 0.15:
                    break
                n, at = rng.choice(subs)
                path += b"/" + n
            names = sorted(snap.dirs[at])
            rng.shuffle(names)
            for n in names[:rng.randint(1, max(1, len(names)))]:
                self.argv.append(path + b"/" + n)
                self.args.append((at, n))
            if not names:
                self.argv, self.args = [rel], [(snap.top, rel)]
        else:
            names = sorted(snap.dirs[rootino])
            rng.shuffle(names)
            names = names[:rng.randint(1, max(1, len(names)))]
            for n in names:
                if mode == "entries":
                    self.argv.append(rel + b"/" + n)
                else:
                    self.argv.append(rng.choice([b"", b"./"]) + n)
                self.args.append((rootino, n))
            if mode == "entries-here":
                self.cwd, self.cwd_ino = root, rootino
            if not names:
                self.argv, self.args = [rel], [(snap.top, rel)]
                self.cwd, self.cwd_ino = top, snap.top
        self.rootino = rootino

    def dashed(self):
        return any(a.startswith(b"-") for a in self.argv)


def options(rng, recurse, special, dry, verbose, conf, seqname, plan):
    """A command line in some spelling, always with the same meaning."""
    def some(*spellings):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            o.append([rng.choice(spellings)])
    o = []
    if recurse:
        some("-r", "--recursive", "-rr")
    if special:
        some("--special")
    if dry:
        some("-n", "--dry-run", "-nn")
    if verbose:
        some("-v", "--verbose", "-vv", "-vvv")
    o.append(["-f", conf])
    o.append(["-s", seqname])
    rng.shuffle(o)
    files = list(plan.argv)
    if plan.dashed() or rng.random() < 0.2:
        return [a for x in o for a in x] + ["--"] + files
    if rng.random() < 0.2:
        # options and files in any order, the files in theirs
        at = sorted(rng.sample(range(len(o) + len(files)), len(files)))
        for i, f in zip(at, files):
            o.insert(i, [f])
        return [a for x in o for a in x]
    return [a for x in o for a in x] + files


def lookup_free(snap, path):
    """Whether a relative argument names nothing in the tree."""
    cur = snap.top
    for comp in path.split(b"/"):
        cur = snap.dirs.get(cur, {}).get(comp)
        if cur is None:
            return True
    return False
