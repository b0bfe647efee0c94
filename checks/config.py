"""C25-C27, C32: configuration files, where they and the tables come from, and what happens when they are unusable."""
import os, re, stat

from lib import conf as C, model as M, trees as T
from lib.core import Check, Violation, printable
from lib.trees import Snap
from checks.filters import rand_bytes

F = M.Filter

NAMES = [b"default", b"Default", b"DEFAULT", b"utf_8", b"safe", b"Safe", b"x", b"X", b"my seq", b"iso8859_1-legacy", b"lower", b"sequence",
         b"a.b", b"1st", b"caf\xc3\xa9", b"_u", b"q_1", b"Q_1", b"with { } ; # all", b"ignore", b"length", b"zz9_", b"'s'", b"x ", b" x", b"9",
         b"defaults", b"de"]
IGNORES = [b"{arch}", b"CVS", b"a b", b"lower", b".git", b"x;y", b"caf\xc3\xa9 1", b"{ }", b"#1 #", b"- -", b"Icon", b"q_1", b"A b", b"a  b"]
PROBES = [b"A B", b"caf\xc3\xa9", b"caf\xe9", b"a%20b+c", b"--x--", b"a_-_b", b"x.tar.gz", b"n" * 40 + b".txt", b"\x80\x99", b"a&b;c",
          b"#x", b"(1)", b"\xe2\x82\xac5", b"Z%41", b"a-.-b", b"%c3%a9", b"..x", b"a. b", b"\xc3\x9f-\xdf", b"n" * 300]


def rand_filter(rng, case, files=True):
    k = rng.choice(["safe", "safe", "utf_8", "iso8859_1", "uncgi", "wipeup", "wipeup", "lower", "max_length"])
    if k == "wipeup":
        return F(k, remove_trailing=rng.random() < 0.5)
    if k == "max_length":
        return F(k, length=rng.choice([None, 0, 1, 2, 8, 15, 16, 32, 100, 254, 255, 256, 1000, 32767, 65536, 2000000000, 9, 90, 189, rng.randint(3, 9999)]))
    if k in M.KIND_TABLE:
        r = rng.random()
        if r < 0.25:
            return F(k)
        if r < 0.8 or not files:
            return F(k, builtin=rng.choice(["safe", "unicode", "iso8859_1", "cp1252"]))
        t, p = own_table(rng, case)
        return F(k, filename=p, table=t)
    return F(k)


def own_table(rng, case):
    """A small table file, also under awkward names."""
    t = T.rand_table_filter(rng, case)
    n = len(os.listdir(case.dir()))
    p = os.path.join(case.dir(), rng.choice(["t%d.tbl", "a table %d", "{t%d};", "caf\u00e9%d.tbl", "#%d.tbl"]) % n)
    with open(p, "wb") as f:
        f.write(T.table_text(t))
    return t, p


def rand_blocks(rng, case, n=None, pool=NAMES, files=True):
    blocks = []
    for _ in range(n or rng.choice([1, 1, 2, 3, 4, 6, 12])):
        if rng.random() < 0.25:
            blocks.append(("ignore", rng.sample(IGNORES, rng.choice([1, 1, 2, 5]))))
        else:
            blocks.append(("sequence", rng.choice(pool), [rand_filter(rng, case, files) for _ in range(rng.choice([1, 1, 2, 3, 5]))]))
    return blocks


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def compare_listing(case, got, want, what, **detail):
    if got == want:
        return
    g, w = got.split(b"\n"), want.split(b"\n")
    k = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
    raise Violation("listing", "%s: line %d is %s instead of %s" % (what, k + 1, printable(g[k:k + 1]), printable(w[k:k + 1])),
                    got=got[-3000:], want=want[-3000:], **detail)


def probes(rng):
    out = rng.sample(PROBES, 8) + [rand_bytes(rng, rng.randint(1, 20), bytes(range(1, 256))).replace(b"\n", b"") or b"x"]
    return [p for p in out if not M.protected(p)]


def inline_matches(case, argv, seq, what, env=None, mon=None, cwd=None, **detail):
    names = probes(case.rng)
    r = case.run(argv, stdin=b"\n".join(names) + b"\n", env=env, mon=mon, cwd=cwd)
    want = b"".join(seq.run(n) + b"\n" for n in names)
    if r.rc != 0 or r.out != want:
        raise Violation("use", "%s: status %d, %s instead of %s" % (what, r.rc, printable(r.out[:300]), printable(want[:300])),
                        stderr=r.err[:600], sequence=seq.conf(), names=names, **detail)
    case.count("names_compared", len(names))
    return r


# ---------------------------------------------------------------- C25

def meaning(case):
    rng = case.rng
    blocks = rand_blocks(rng, case)
    cfg = C.Config()
    p = os.path.join(case.dir(), rng.choice(["c.rc", "my conf", "detoxrc"]))
    text, lines, _ = C.render(rng, C.tokens_of(rng, blocks))
    put(p, text)
    cfg.add(blocks, os.fsencode(p))
    info = dict(config=text)
    chosen = cfg.choose(None)
    for verbose in (False, True):
        r = case.run(["-L", "-f", p] + (["-v"] if verbose else []))
        if r.rc != 0 or r.err:
            raise Violation("status", "listing ended with %d" % r.rc, stderr=r.err, **info)
        compare_listing(case, r.out, cfg.listing(chosen, verbose), "-L -v" if verbose else "-L", **info)
    for s in rng.sample(cfg.sequences, min(len(cfg.sequences), 3)):
        seq = cfg.sequence(s)
        inline_matches(case, ["--inline", "-f", p, "-s", s[0]], seq, "sequence %s" % printable(s[0]), **info)
        r = case.run(["-L", "-f", p, "-s", s[0]])
        compare_listing(case, r.out, cfg.listing(s, False), "-L -s", **info)
    case.count("sequences", len(cfg.sequences))
    case.count("redefinitions", sum(b[0] == "sequence" for b in blocks) - len(cfg.sequences))
    case.count("ignore_entries", len(cfg.ignore))
    case.count("comments", text.count(b"#"))
    case.note(text, dict(config=text[:600]))


def ignoring(case):
    """Ignore entries of a configuration take effect as listed."""
    rng = case.rng
    lists = [rng.sample(IGNORES, rng.choice([1, 2, 5])) for _ in range(rng.choice([1, 2, 3]))]
    blocks = [("ignore", l) for l in lists] + [("sequence", b"default", [F("safe", builtin="safe"), F("uncgi")])]
    rng.shuffle(blocks)
    p = os.path.join(case.dir(), "c.rc")
    text, _, _ = C.render(rng, C.tokens_of(rng, blocks))
    put(p, text)
    top = os.path.join(case.dir(), "top")
    os.mkdir(top)
    ign = set(sum(lists, []))
    t = M.Table({}, None)
    seq = M.Sequence("default", [F("safe", builtin="safe"), F("uncgi")])
    names, taken = [], set()
    for n in IGNORES + [b"a b ", b"caf\xc3\xa9 2", b"z z"]:
        g = n if n in ign else seq.run(n)
        if g in taken or n in taken:
            continue
        taken |= {g, n}
        names.append((n, g))
        put(os.path.join(os.fsencode(top), n), n)
    r = case.run(["-f", p, "-r", "."], cwd=top)
    got = {n: open(os.path.join(os.fsencode(top), n), "rb").read() for n in os.listdir(os.fsencode(top))}
    want = {g: n for n, g in names}
    if r.rc != 0 or got != want:
        raise Violation("ignore", "after the run %s instead of %s" % (printable(sorted(got.items() - want.items())),
                                                                       printable(sorted(want.items() - got.items()))),
                        config=text, stderr=r.err)
    case.count("ignored_kept", sum(n in ign for n, _ in names))
    case.note((text, sorted(want)))


def sizes(case):
    """Many sequences, filters or ignore entries, long names, long comments: none is lost or cut."""
    rng = case.rng
    shape = case.index % 8
    base = rng.choice([3, 20, 60, 130, 300, 900] + [2500] * (case.tier == "thorough"))
    blocks, probe = [], []
    word = lambda k, n: (b"%d " % k + rng.choice([b"a b", b"x", b"Long name ", b"caf\xc3\xa9;"]) * n)[:n]
    simple = lambda: [F("lower"), F("wipeup"), F("uncgi"), F("safe", builtin="safe"), F("max_length", length=rng.randint(1, 300))][rng.randrange(5):][:1]
    if shape in (0, 1):
        for k in range(base):
            name = b"s%d" % k if shape == 0 else word(k, 12)
            blocks.append(("sequence", name, simple() + simple() * (k % 3 == 0)))
        if rng.random() < 0.5:      # defined again, far behind
            blocks.insert(rng.randint(len(blocks) // 2, len(blocks)), ("sequence", blocks[rng.randrange(3)][1], [F("lower"), F("uncgi")]))
        probe = [blocks[0][1], blocks[-1][1], rng.choice(blocks)[1], rng.choice(blocks)[1]]
    elif shape == 2:
        # each uncgi takes one level away, so that every filter shows
        fs = [F("uncgi") for _ in range(base)]
        for _ in range(rng.choice([0, 0, 3])):
            fs.insert(rng.randint(0, len(fs)), F("wipeup"))
        fs.insert(rng.choice([0, len(fs)]), F("lower"))
        blocks = [("sequence", b"default", fs)]
        probe = [b"default"]
    elif shape == 3:
        blocks = [("sequence", b"default", [rand_filter(rng, case, False) for _ in range(base)])]
        probe = [b"default"]
    elif shape == 4:
        name = word(7, base * rng.randint(1, 6))
        names = [name, name[:-1] + b"!", name + b"x"]
        blocks = [("sequence", n, [F("max_length", length=5 + k)]) for k, n in enumerate(names)]
        probe = names
    elif shape == 5:
        ign = [word(k, rng.choice([10, 20, 90, 250])) for k in range(base)]
        while ign:
            n = rng.choice([1, 3, len(ign)])
            blocks.append(("ignore", ign[:n]))
            del ign[:n]
        blocks.insert(rng.randint(0, len(blocks)), ("sequence", b"default", [F("lower")]))
        probe = [b"default"]
    elif shape == 6:
        t, p0 = own_table(rng, case)
        d = os.path.join(case.dir(), *["%s%d" % ("d" * rng.choice([3, 60, 180]), k) for k in range(min(base // 10, 12))])
        p = os.path.join(d, "own.tbl")
        put(p, T.table_text(t))
        blocks = [("sequence", b"default", [F(rng.choice(["safe", "utf_8", "iso8859_1"]), filename=p, table=t)])]
        probe = [b"default"]
    else:
        blocks = rand_blocks(rng, case, rng.randint(30, 80))
        probe = [b[1] for b in blocks if b[0] == "sequence"][-3:]
    cfg = C.Config()
    p = os.path.join(case.dir(), "c.rc")
    text, _, _ = C.render(rng, C.tokens_of(rng, blocks))
    if rng.random() < 0.5:
        text = b"#" + rng.choice([b"x", b'"sequence ', b"} ; "]) * rng.choice([300, 3000, 30000]) + b"\n" + text
    if rng.random() < 0.5:
        text += b"\n" + rng.choice([b"\n", b" ", b"\t\n", b"# more\n"]) * rng.choice([1000, 20000]) + b'\nsequence "the end" { lower; };\n'
        blocks.append(("sequence", b"the end", [F("lower")]))
        probe.append(b"the end")
    put(p, text)
    cfg.add(blocks, os.fsencode(p))
    info = dict(config=text[:4000])
    chosen = cfg.choose(None)
    for verbose in (False, True):
        r = case.run(["-L", "-f", p] + (["-v"] if verbose else []), log=False)
        if r.rc != 0 or r.err:
            raise Violation("status", "listing ended with %d" % r.rc, stderr=r.err, **info)
        compare_listing(case, r.out, cfg.listing(chosen, verbose), "-L -v" if verbose else "-L", **info)
    known = {s[0]: s for s in cfg.sequences}
    for n in probe:
        seq = cfg.sequence(known[n])
        names = probes(rng) + [b"%" + b"25" * k + b"41" for k in (0, 1, 2, base - 2, base - 1, base, base + 3) if k >= 0]
        names = [x for x in names if b"\n" not in seq.run(x)]
        want = b"".join(seq.run(x) + b"\n" for x in names)
        by = rng.random() < 0.5
        r = case.run(["--inline", "-f", p] + ([] if by else ["-s", n]), env={"DETOX_SEQUENCE": n} if by else None,
                     stdin=b"\n".join(names) + b"\n", log=False)
        if r.rc != 0 or r.out != want:
            raise Violation("use", "sequence %s: status %d, %s instead of %s" % (printable(n[:60]), r.rc, printable(r.out[:300]), printable(want[:300])),
                            stderr=r.err[:600], **info)
    case.count("sequences", len(cfg.sequences))
    case.count("ignore_entries", len(cfg.ignore))
    case.count("filters", sum(len(b[2]) for b in blocks if b[0] == "sequence"))
    case.note(text[:3000], dict(config=text[:300], shape=shape, bytes=len(text)))


class C25(Check):
    prop = "C25"
    technique = "runtime monitoring: listing and results of generated configurations against the generator's meaning"
    rule = "distinct well-formed configuration texts, each listed and used"
    parts = [("meaning", meaning, 2500, 40000), ("ignoring", ignoring, 600, 8000), ("sizes", sizes, 64, 800)]

    def extra(self, agg):
        return {}


# ---------------------------------------------------------------- C26

def lengthen(path, n):
    """The path with directories below it, n characters long in all."""
    while n - len(path) > 202:
        path += "/" + "h" * 199
    return path + "/" + "g" * (n - len(path) - 1) if n - len(path) > 1 else path


class Places:
    """The five standard locations inside the case's directory, and the run environment that leads there."""

    def __init__(self, case):
        d = os.path.join(case.dir(), "fs")
        os.mkdir(d)
        self.case, self.d = case, d
        pre = os.path.join(case.scratch, "prefix")
        home, xdg = d + "/home/me", d + "/xdg dir"
        if case.rng.random() < 0.12:
            # total lengths of the file names around limits a program may have
            n = case.rng.choice([case.rng.randint(230, 270), case.rng.randint(480, 1100), case.rng.randint(1000, 3900)])
            home = lengthen(home, n - len("/.detoxrc") + case.rng.randint(-1, 1))
            if case.rng.random() < 0.5:
                xdg = lengthen(xdg, n - len("/detox/detoxrc") + case.rng.randint(-1, 1))
            case.count("long_directories")
        self.real = {"sys": d + "/prefix/etc/detoxrc", "etc": d + "/etc/detoxrc", "local": d + "/usr/local/etc/detoxrc",
                     "home": home + "/.detoxrc", "xdg": xdg + "/detox/detoxrc"}
        self.shown = {"sys": pre + "/etc/detoxrc", "etc": "/etc/detoxrc", "local": "/usr/local/etc/detoxrc",
                      "home": self.real["home"], "xdg": self.real["xdg"]}
        self.mon = {"MON_REDIR": "%s=%s/prefix:/etc/detoxrc=%s/etc/detoxrc:/usr/local/=%s/usr/local/:/usr/share/detox=%s/usr/share/detox" % (
            pre, d, d, d, d)}
        self.env = {"HOME": home, "XDG_CONFIG_HOME": xdg}
        self.tables = [d + "/prefix/share/detox/", d + "/usr/share/detox/", d + "/usr/local/share/detox/"]


def opened(r, prefix):
    """Files under prefix that were opened successfully."""
    p = os.fsencode(prefix)
    return {e.a for e in r.events if e.name in ("fopen", "open", "openat") and e.ret >= 0 and e.a.startswith(p)}


POOL = [b"default", b"x", b"y", b"utf_8", b"last", b"my seq", b"=x", b"d-e f", b"X", b"DEFAULT"]


def location(case):
    rng = case.rng
    pl = Places(case)
    present = [k for k in pl.real if rng.random() < 0.5]
    files = {}
    for k in present:
        blocks = [] if rng.random() < 0.06 else rand_blocks(rng, case, rng.choice([1, 1, 2, 3]), rng.choice([POOL, POOL, POOL[1:]]))
        text, _, _ = C.render(rng, C.tokens_of(rng, blocks))
        put(pl.real[k], text)
        files[k] = (blocks, text)
    env = dict(pl.env)
    if rng.random() < 0.15:
        env["HOME"] = None
    if rng.random() < 0.2:
        env["XDG_CONFIG_HOME"] = None
    argv, only, cwd = [], None, None
    if rng.random() < 0.25:
        blocks = rand_blocks(rng, case, rng.choice([1, 2, 3]), POOL)
        only = os.path.join(case.dir(), rng.choice(["own.rc", "own.rc", "-", "own file", "detoxrc", ".detoxrc", "0"]))
        text, _, _ = C.render(rng, C.tokens_of(rng, blocks))
        put(only, text)
        files["-f"] = (blocks, text)
        argv = ["-f", only]
        if rng.random() < 0.4:
            # by a relative name: "-" too is a file
            argv, cwd = ["-f", os.path.basename(only)], case.dir()
    cfg, used = C.Config(), []
    if only:
        cfg.add(files["-f"][0], os.fsencode(argv[1]))
        used = ["-f"]
    else:
        for k in ("sys", "etc", "local"):
            if k in present:
                used.append(k)
                break
        if env["HOME"] and "home" in present:
            used.append("home")
        if env["XDG_CONFIG_HOME"] and "xdg" in present:
            used.append("xdg")
        for k in used:
            cfg.add(files[k][0], os.fsencode(pl.shown[k]))
        if not used:
            cfg.add([("sequence", s.name.encode(), s.filters) for s in M.shipped()] + [("ignore", list(M.SHIPPED_IGNORE))], b"built-in")
    how = rng.choice(["none", "none", "s", "env", "both"])
    names = [s[0] for s in cfg.sequences]
    name = None
    if names and how != "none":
        name = rng.choice(names)
        other = rng.choice(names + POOL)
        if how == "s":
            argv += ["-s", name]
        elif how == "env":
            env["DETOX_SEQUENCE"] = name
        else:
            argv += ["-s", name]
            env["DETOX_SEQUENCE"] = other
    chosen = cfg.choose(name)
    info = dict(present=present, read=used, files={k: v[1] for k, v in files.items()}, environment=env, arguments=argv)
    r = case.run(argv + ["-L", "-v"], env=env, mon=pl.mon, cwd=cwd)
    if r.rc != 0:
        raise Violation("status", "listing ended with %d" % r.rc, stderr=r.err, **info)
    got = r.out
    if not used:
        got = re.sub(rb"(?m)^\tsource file: .*\n", b"", got)
    compare_listing(case, got, cfg.listing(chosen, True, bool(used)), "listing", **info)
    if only:
        bad = opened(r, pl.d)
        if bad:
            raise Violation("read", "with -f, %s was read as well" % printable(bad), **info)
    if chosen is not None:
        inline_matches(case, ["--inline"] + argv, cfg.sequence(chosen), "inline", env=env, mon=pl.mon, cwd=cwd, **info)
        renames(case, argv[:1] + [os.path.join("..", argv[1])] + argv[2:] if cwd else argv, env, pl, cfg, chosen, info)
    else:
        r = case.run(["--inline"] + argv, env=env, mon=pl.mon, stdin=b"x y\n", cwd=cwd)
        if r.rc == 0 or r.out:
            raise Violation("no-sequence", "no sequence defined, but status %d and output %s" % (r.rc, printable(r.out)), **info)
    case.seen("combinations", (tuple(used), how))
    case.seen("presence", (tuple(present), bool(only)))
    case.count("listings")
    case.note((tuple(sorted((k, v[1]) for k, v in files.items())), name, how), dict(present=present, read=used, by=how))


def renames(case, argv, env, pl, cfg, chosen, info):
    """The same choice in a rename run: one file, and the accumulated ignore list."""
    seq = cfg.sequence(chosen)
    top = os.path.join(case.dir(), "top")
    os.mkdir(top)
    names, taken = [], set()
    for n in case.rng.sample(IGNORES, 6) + [b"A  b%20c", b"caf\xc3\xa9"]:
        g = n if n in cfg.ignore or n.startswith(b".") else M.target(seq, n)
        if {g, n} & taken:
            continue
        taken |= {g, n}
        names.append((n, g))
        put(os.path.join(os.fsencode(top), n), n)
    case.run(argv + ["-r", "."], env=env, mon=pl.mon, cwd=top)
    got = {n: open(os.path.join(os.fsencode(top), n), "rb").read() for n in os.listdir(os.fsencode(top))}
    want = {g: n for n, g in names}
    if got != want:
        raise Violation("use", "after a rename run %s instead of %s" % (printable(sorted(got.items() - want.items())),
                                                                         printable(sorted(want.items() - got.items()))), **info)


class C26(Check):
    prop = "C26"
    technique = "runtime monitoring: standard locations redirected into scratch, listing, results and files opened against the model"
    rule = "distinct sets of configuration files with a way of choosing the sequence"
    need_mon = True
    parts = [("location", location, 2000, 30000)]


# ---------------------------------------------------------------- C27

def mutate(rng, toks):
    """One or two token-level slips."""
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if not toks:
            break
        i = rng.randrange(len(toks))
        k = rng.randrange(7)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[rng.randrange(len(toks))])
        elif k == 2:
            toks[i] = C.Tok(rng.choice(C.KEYWORDS + ["{", "}", ";"]))
        elif k == 3:
            toks[i] = rng.choice([C.Tok("id", b"wat"), C.Tok("num", b"12"), C.Tok("str", b'"q"')])
        elif k == 4 and i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif k == 5:
            del toks[i:]
        else:
            toks.insert(i, rng.choice([C.Tok("id", b"wat"), C.Tok("num", b"12"), C.Tok("str", b'"q"'), C.Tok("bad", b'"open\n')]))
    return toks


class Scene:
    """Files to clean and a stream; nothing of it may change, nothing may be output."""

    def __init__(self, case):
        self.case = case
        self.top = os.path.join(case.dir(), "top")
        os.makedirs(self.top + "/d d")
        for n in (b"a b", b"d d/c c", b"caf\xe9", b"%41"):
            put(os.path.join(os.fsencode(self.top), n), n)
        self.before = Snap(os.fsencode(self.top)).names()

    def fails(self, argv, what, env=None, mon=None, **info):
        rng = self.case.rng
        mode = rng.choice(["rename", "rename", "dry", "verbose", "inline", "inline-file", "list"])
        if mode == "list" and not info.pop("list_fails", False):
            mode = "rename"
        info.pop("list_fails", None)
        extra = {"rename": ["-r", "."], "dry": ["-n", "-r", "."], "verbose": ["-v", "a b", "d d"], "inline": ["--inline"],
                 "inline-file": ["--inline", "a b"], "list": ["-L", "-v"]}[mode]
        a = list(argv) + extra if rng.random() < 0.5 else extra[:1] + list(argv) + extra[1:] if mode not in ("verbose",) else list(argv) + extra
        r = self.case.run(a, cwd=self.top, env=env, mon=mon, stdin=b"a b\nc d\n")
        after = Snap(os.fsencode(self.top)).names()
        if after != self.before:
            raise Violation("changed", "%s, but the tree was changed" % what, argv=a, stderr=r.err, before=self.before, after=after, **info)
        if r.rc == 0 or r.signal:
            raise Violation("status", "%s, but the run ended with %d" % (what, r.rc), argv=a, stderr=r.err, stdout=r.out, **info)
        if r.out:
            raise Violation("output", "%s, but there is output: %s" % (what, printable(r.out[:300])), argv=a, **info)
        if not r.err.strip():
            raise Violation("silent", "%s, but nothing was reported" % what, argv=a, **info)
        self.case.seen("modes", mode)
        self.case.count("refused")
        return r


def syntax(case):
    rng = case.rng
    sc = Scene(case)
    toks = C.tokens_of(rng, rand_blocks(rng, case, rng.choice([1, 1, 2, 3]), files=False))
    bad = mutate(rng, toks)
    at = C.offence(bad)
    for i, t in enumerate(bad):
        if t.kind == "bad" and (at is None or i <= at):
            at = i
            break
    text, lines, end = C.render(rng, bad, style=rng.choice([1, 1, 2, 2, 0]))
    where = rng.choice(["-f", "-f", "-f", "home", "xdg", "sys", "etc"])
    pl = Places(case)
    env, mon, argv = dict(pl.env), pl.mon, []
    if where == "-f":
        p = os.path.join(case.dir(), "bad.rc")
        argv, env, mon = ["-f", p], {}, None
        put(p, text)
        shown = p
    else:
        put(pl.real[where], text)
        shown = pl.shown[where]
        good = b"# fine\n\n\nsequence default {\n\tlower;\n};\n"
        for k in pl.real:
            if k != where and rng.random() < 0.4 and not (where == "etc" and k == "sys"):
                put(pl.real[k], good)
    info = dict(config=text, where=where)
    if at is None:
        r = case.run(argv + ["-L"], env=env, mon=mon)
        if r.rc != 0 or b"available sequences" not in r.out:
            raise Violation("refused", "a well-formed configuration was refused with %d" % r.rc, stderr=r.err, **info)
        case.count("mutants_still_valid")
        return
    line = lines[at] if at < len(bad) else end
    if rng.random() < 0.3:
        name = rng.choice(["default", "nosuch"])
        argv = argv + ["-s", name]
    r = sc.fails(argv, "malformed configuration (line %d)" % line, env=env, mon=mon, list_fails=True, **info)
    if os.fsencode(shown) not in r.err:
        raise Violation("file-name", "the message does not name the file %s: %s" % (shown, printable(r.err)), **info)
    if not re.search(rb"line:? %d\b" % line, r.err):
        raise Violation("line", "the error is in line %d (%r), the message says %s" % (
            line, bad[at] if at < len(bad) else "end of file", printable(r.err[-300:])), **info)
    case.seen("offending_kinds", bad[at].kind if at < len(bad) else "END")
    case.seen("lines", line)
    case.note(text, dict(config=text[:300], line=line))


def unusable(case):
    rng = case.rng
    sc = Scene(case)
    d = case.dir()
    kind = ["missing", "unreadable", "dangling", "sequence", "sequence-env", "builtin", "table", "table-unreadable", "builtin-empty-name",
            "no-sequences", "missing-with-home", "second-bad", "last-of-many"][case.index % 13]
    p = os.path.join(d, "c.rc")
    good = [("sequence", b"default", [F("safe", builtin="safe")]), ("sequence", b"x", [F("lower")])]
    env, argv, lst = {}, ["-f", p], False
    home = os.path.join(d, "home")
    if rng.random() < 0.5:
        # an intact file elsewhere must not be fallen back on
        put(home + "/.detoxrc", C.render(rng, C.tokens_of(rng, good))[0])
        env["HOME"] = home
    missing = rng.choice(["nosuch.tbl", "no/such.tbl", "safe.tbl", "unicode.tbl", "iso8859_1.tbl", "safe", ""])
    if rng.random() < 0.5 and missing:
        missing = os.path.join(rng.choice([d, ".", "..", d + "/home"]), missing)
    fam = lambda: rng.choice(["safe", "utf_8", "iso8859_1"])
    if kind in ("missing", "missing-with-home"):
        argv = ["-f", rng.choice([p, d + "/none/c.rc", p + "/x", "nosuch", d + "/" + "n" * 300])]
        lst = True
    elif kind == "unreadable":
        put(p, C.render(rng, C.tokens_of(rng, good))[0])
        os.chmod(p, 0)
        lst = True
    elif kind == "dangling":
        os.symlink("nowhere", p)
        lst = True
    elif kind in ("sequence", "sequence-env"):
        put(p, C.render(rng, C.tokens_of(rng, good))[0])
        n = rng.choice([b"nosuch", b"Default", b"defaul", b"default ", b"X", b"xx", b"utf_8", b"lower", b"default2"])
        if kind == "sequence":
            argv += ["-s", n]
        else:
            env["DETOX_SEQUENCE"] = n
    elif kind == "no-sequences":
        put(p, rng.choice([b"", b"\n", b"# nothing\n", b"ignore { filename \"x\"; };\n"]))
    else:
        if kind == "builtin":
            b = F(fam(), builtin=rng.choice(["nosuch", "Safe", "saf", "safe2", "utf_8", "unicod", "iso8859_15", "cp125", "safe.tbl"]))
        elif kind == "builtin-empty-name":
            b = F(fam(), builtin="")
        elif kind == "table-unreadable":
            t = os.path.join(d, "secret.tbl")
            put(t, b"start\n0x41 x\nend\n")
            os.chmod(t, 0)
            b = F(fam(), filename=t)
        else:
            b = F(fam(), filename=missing)
        fs = [rand_filter(rng, case) for _ in range(rng.choice([0, 1, 2, 4]))]
        pos = {"last-of-many": len(fs), "second-bad": min(1, len(fs))}.get(kind, rng.randint(0, len(fs)))
        fs.insert(pos, b)
        blocks = good + [("sequence", b"bad", fs)]
        rng.shuffle(blocks)
        text = C.render(rng, C.tokens_of(rng, blocks))[0]
        put(p, text)
        # not chosen: usable
        cfg = C.Config().add(blocks, p.encode())
        inline_matches(case, ["--inline", "-f", p, "-s", "x"], cfg.sequence(cfg.choose(b"x")), "another sequence", config=text)
        if rng.random() < 0.3:
            env["DETOX_SEQUENCE"] = "bad"
        else:
            argv += ["-s", "bad"]
    r = sc.fails(argv, kind, env=env, list_fails=lst, config=open(p, "rb").read() if os.path.isfile(p) and os.access(p, os.R_OK) else None)
    case.seen("kinds", kind)
    case.note((kind, tuple(argv[1:2]), case.index))


class C27(Check):
    prop = "C27"
    scale = 6
    technique = "runtime monitoring: mutated and unusable configurations, outcome, message and tree against an independent recogniser"
    rule = "distinct malformed configuration texts and unusable settings, each refused without effect"
    need_mon = True
    parts = [("syntax", syntax, 3000, 40000), ("unusable", unusable, 1040, 8000)]


# ---------------------------------------------------------------- C32

MARKS = b"QRSTUVWXYZJKLM"


def marked(kind, mark):
    """A table whose use is visible in the output: every probe character becomes the mark's text."""
    rows = {0xE9: b"<" + mark + b">", 0x26: b"{" + mark + b"}"}
    return M.Table(rows, None)


def resolution(case):
    rng = case.rng
    pl = Places(case)
    d = case.dir()
    std = {"safe": "safe.tbl", "utf_8": "unicode.tbl", "iso8859_1": "iso8859_1.tbl"}
    tables, mark = {}, 0
    if rng.random() < 0.85:
        for k, base in std.items():
            for where in range(3):
                if rng.random() < 0.4:
                    t = marked(k, MARKS[mark:mark + 1])
                    mark += 1
                    tables[k, where] = t
                    put(pl.tables[where] + base, T.table_text(t))
        # bait: names of built-in and other tables
        for where in range(3):
            for n in ("cp1252.tbl", "safe", "unicode", "utf_8.tbl", "iso8859_1", "iso8859_1.tbl.bak"):
                if rng.random() < 0.15:
                    put(pl.tables[where] + n, b"default BAIT\nstart\n0xe9 BAIT\n0x26 BAIT\nend\n")
    fs, files, searched = [], set(), False
    for i in range(rng.choice([1, 1, 2, 3, 4, 6])):
        k = rng.choice(["safe", "utf_8", "iso8859_1"])
        r = rng.random()
        if r < 0.3:
            fs.append(F(k, builtin=rng.choice(["safe", "unicode", "iso8859_1", "cp1252"])))
        elif r < 0.55:
            t = marked(k, b"%d" % i)
            if rng.random() < 0.3:
                t.rows[0x3C] = b"[%d" % i
            # alike in some part of the path: the same name elsewhere, the name of a standard table, another case, a long path
            rel = rng.choice(["own%d.tbl" % i, "d%d/own.tbl" % i, "d%d/%s" % (i, std[k]), "e/%s" % ("Own.tbl", "own.tbl", "OWN.tbl")[i % 3],
                              "own.tbl.%d" % i, "%s/%d/own.tbl" % ("l" * 130 + "/" + "m" * 130, i), "own%d" % i])
            own = rng.choice(fs) if rng.random() < 0.15 and fs else None
            if own is not None and own.filename:
                # the same file again
                fs.append(F(rng.choice([k, own.kind]), filename=own.filename, table=own.table))
                continue
            p = os.path.join(d, rel)
            if os.path.exists(p):
                p, rel = os.path.join(d, "again%d.tbl" % i), "again%d.tbl" % i
            cwd_rel = rng.random() < 0.3
            put(p, T.table_text(t))
            f = F(k, filename=rng.choice([rel, "./" + rel]) if cwd_rel else p, table=t)
            files.add(os.fsencode(f.filename))
            fs.append(f)
        else:
            t = next((tables[k, w] for w in range(3) if (k, w) in tables), None)
            w = next((w for w in range(3) if (k, w) in tables), None)
            if w is not None:
                files.add(os.fsencode(pl.tables[w] + std[k]))
            searched = True
            fs.append(F(k, table=t))
    if rng.random() < 0.3:
        fs.insert(rng.randint(0, len(fs)), F(rng.choice(["lower", "uncgi"])))
    blocks = [("sequence", b"s", fs)]
    if rng.random() < 0.4:
        blocks.append(("sequence", b"other", [F("safe", filename="/nonexistent/x.tbl")]))
    rng.shuffle(blocks)
    text = C.render(rng, C.tokens_of(rng, blocks))[0]
    p = os.path.join(d, "c.rc")
    put(p, text)
    seq = M.Sequence("s", fs)
    names = [b"a&b", b"caf\xe9", b"caf\xc3\xa9", b"<&\xe9\xc3\xa9>", b"\xc3\xa9\xc3\xa9", b"x y", b"\x80\xe2\x82\xac"] + probes(rng)[:3]
    rng.shuffle(names)
    info = dict(config=text, tables=sorted("%s %s" % (pl.tables[w], std[k]) for k, w in tables), names=names)
    rename = rng.random() < 0.3 and seq.run(b"top") == b"top"
    if rename:
        top = os.path.join(d, "top")
        os.mkdir(top)
        pairs, taken = [], set()
        for n in names:
            g = M.target(seq, n)
            if len(n) > 255 or len(g) > 255 or {n, g} & taken:
                continue
            taken |= {n, g}
            pairs.append((n, g))
            put(os.path.join(os.fsencode(top), n), n)
        r = case.run(["-f", p, "-s", "s", "-r", top], mon=pl.mon, cwd=d)
        got = {n: open(os.path.join(os.fsencode(top), n), "rb").read() for n in os.listdir(os.fsencode(top))}
        want = {g: n for n, g in pairs}
        if r.rc != 0 or got != want:
            raise Violation("table", "status %d; after the run %s instead of %s" % (
                r.rc, printable(sorted(got.items() - want.items())), printable(sorted(want.items() - got.items()))), stderr=r.err, **info)
    else:
        r = case.run(["-f", p, "-s", "s", "--inline"], mon=pl.mon, cwd=d, stdin=b"\n".join(names) + b"\n")
        want = b"".join(seq.run(n) + b"\n" for n in names)
        if r.rc != 0 or r.out != want:
            raise Violation("table", "status %d, %s instead of %s" % (r.rc, printable(r.out[:400]), printable(want[:400])), stderr=r.err, **info)
    read = {e.a for e in r.events if e.name in ("fopen", "open", "openat") and e.ret >= 0 and (e.a.endswith(b".tbl") or b"/detox/" in e.a)}
    if read - files:
        raise Violation("read", "also read: %s" % printable(read - files), expected=files, **info)
    case.count("tables_used", len([f for f in fs if f.kind in std]))
    case.count("chained_same_kind", len(fs) - len({f.kind for f in fs}))
    case.count("fallbacks", sum(f.kind in std and f.table is None and f.builtin is None for f in fs))
    case.seen("standard_tables", tuple(sorted(tables)))
    case.note((text, tuple(sorted(tables))), dict(config=text[:400], installed=info["tables"]))


class C32(Check):
    prop = "C32"
    scale = 6
    technique = "runtime monitoring: identifying tables at redirected locations, output and files opened against the model"
    rule = "distinct configurations with a set of installed tables"
    need_mon = True
    parts = [("resolution", resolution, 2500, 40000)]


CHECKS = [C25, C26, C27, C32]
