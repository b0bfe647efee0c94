"""C31: the command line."""
import os

from lib import model as M, trees as T
from lib.core import Check, Violation, printable
from lib.trees import Run, Snap, judge
from checks.config import put

F = M.Filter

SEQS = [("default", [F("safe", builtin="safe"), F("wipeup", remove_trailing=True)]), ("low", [F("lower")]), ("cgi", [F("uncgi")]),
        ("wipe", [F("wipeup")]), ("-r", [F("lower"), F("uncgi")]), ("cut", [F("max_length", length=5)]), ("=low", [F("uncgi"), F("wipeup")]),
        ("my own=x", [F("uncgi"), F("max_length", length=6)]), ("low ", [F("wipeup"), F("lower")])]
SEQS_B = [("default", [F("lower")]), ("low", [F("uncgi")]), ("cgi", [F("wipeup")])]

FILES = [b"1 A%42.txt", b"8 Z", b"--A-9", b"-n", b"-r", b"--help", b"-f", b"-V", b"-L", b"--", b"-rn X", b"--inline", b"--recursive", b"--special", b"-h",
         b"a+_-B", b"-s", b"-v q"]
LINKS = [b"9 link%48", b"-L ink"]
DIRS = [b"2 D%43", b"-D 7"]


class Scene:
    """The same tree every time it is made: files and links with all kinds of names, two directories with contents."""

    def __init__(self, case, k):
        self.top = os.fsencode(os.path.join(case.dir(), "s%d" % k))
        os.mkdir(self.top)
        for n in FILES:
            put(os.path.join(self.top, n), n)
        for n in LINKS:
            os.symlink(b"8 Z", os.path.join(self.top, n))
        for n in DIRS:
            d = os.path.join(self.top, n)
            os.mkdir(d)
            for m in (b"3 F%44", b".hid den", b"N%45"):
                put(os.path.join(d, m), n + m)
            os.symlink(b"3 F%44", os.path.join(d, b"6 L%46"))
            os.mkfifo(os.path.join(d, b"7 P%47"))
            s = os.path.join(d, b"4 Sub%20X")
            os.mkdir(s)
            put(os.path.join(s, b"5 Deep%49"), b"x" + n)
            os.mkdir(os.path.join(s, b"E F"))
            put(os.path.join(s, b"E F", b"G%50 h"), b"y" + n)
        self.snap = Snap(self.top)

    def state(self):
        """path -> kind and content"""
        out = {}
        for root, ds, fs in os.walk(self.top):
            for n in ds + fs:
                p = os.path.join(root, n)
                r = os.path.relpath(p, self.top)
                out[r] = os.readlink(p) if os.path.islink(p) else b"fifo" if not os.path.isfile(p) and not os.path.isdir(p) else \
                    b"dir" if os.path.isdir(p) else b"=" + open(p, "rb").read()
        return out


def spell(rng, flags, conf, seq, files, plain=False, over=None):
    """A command line. flags: letters out of r n v and S (special), I (inline). over: values that -f and -s may have been given before."""
    long = {"r": "--recursive", "n": "--dry-run", "v": "--verbose", "S": "--special", "I": "--inline"}
    if plain:
        argv = [long.get(f) if f in "SI" else "-" + f for f in flags]
        if conf:
            argv += ["-f", conf]
        if seq:
            argv += ["-s", seq]
        return argv + ["--"] + list(files)
    shorts, words = [], []
    for f in flags:
        for _ in range(rng.choice([1, 1, 1, 2]) if f != "v" else 1):
            if f in "SI" or rng.random() < 0.35:
                words.append([long[f]])
            elif rng.random() < 0.5:
                shorts.append(f)
            else:
                words.append(["-" + f])
    rng.shuffle(shorts)
    valued = ([("f", conf)] if conf else []) + ([("s", seq)] if seq else [])
    rng.shuffle(valued)
    if over and rng.random() < 0.3:
        # given before with another value: the last one counts
        for l, v in rng.sample(valued, len(valued)):
            for w in rng.sample(over[l], rng.choice([1, 1, 2])):
                words.append(["-" + l + w] if rng.random() < 0.4 else ["-" + l, w])
            last = [["-" + l + v] if rng.random() < 0.4 else ["-" + l, v]]
            words.append(last[0])
            valued.remove((l, v))
        keep = [w for w in words if w[0][:2] in ("-f", "-s")]
        words = [w for w in words if w[0][:2] not in ("-f", "-s")]
        at = sorted(rng.randint(0, len(words)) for _ in keep)
        for k, w in reversed(list(zip(at, keep))):
            words.insert(k, w)
        fixed = True
    else:
        fixed = False
    if shorts and valued and rng.random() < 0.5:
        l, v = valued.pop()
        b = "-" + "".join(shorts) + l
        words.append([b + v] if rng.random() < 0.5 else [b, v])
    elif shorts:
        k = rng.randint(0, len(shorts))
        for part in (shorts[:k], shorts[k:]):
            if part:
                words.append(["-" + "".join(part)])
    for l, v in valued:
        words.append(["-" + l + v] if rng.random() < 0.4 else ["-" + l, v])
    if not fixed:
        rng.shuffle(words)
    # file arguments, in their order, anywhere among the options; the rest after --
    dashed = [i for i, f in enumerate(files) if f.startswith(b"-") and f != b"-"]
    first = dashed[0] if dashed else len(files)
    cut = rng.randint(0, first) if dashed or rng.random() < 0.4 else len(files)
    early, late = list(files[:cut]), list(files[cut:])
    slots = sorted(rng.randint(0, len(words)) for _ in early)
    argv, e = [], 0
    for i in range(len(words) + 1):
        while e < len(early) and slots[e] == i:
            argv.append(early[e])
            e += 1
        if i < len(words):
            argv += words[i]
    if late or rng.random() < 0.2:
        argv += ["--"] + late
    return argv


def confs(case):
    p = os.path.join(case.dir(), "c.rc")
    if not os.path.exists(p):
        put(p, "".join(M.Sequence(n, f).conf() for n, f in SEQS).encode())
        put(os.path.join(case.dir(), "home/.detoxrc"), "".join(M.Sequence(n, f).conf() for n, f in SEQS_B).encode())
    return p, os.path.join(case.dir(), "home")


def meaning(case):
    """What is to be done: flags, configuration, sequence, model, environment."""
    rng = case.rng
    conf, home = confs(case)
    use = rng.random() < 0.7
    seqs = SEQS if use else SEQS_B
    name, filters = rng.choice(seqs)
    env = {"HOME": home}
    given = name
    if name == "default" and rng.random() < 0.5:
        given = None
    elif rng.random() < 0.25:
        env["DETOX_SEQUENCE"], given = name, None
    elif rng.random() < 0.3:
        env["DETOX_SEQUENCE"] = rng.choice(["low", "nosuch", "cgi"])
    return (conf if use else None), given, M.Sequence(name, filters), env


def overridden(case):
    """Values of -f and -s that a later one replaces."""
    d = case.dir()
    other, broken = os.path.join(d, "other.rc"), os.path.join(d, "broken.rc")
    if not os.path.exists(other):
        put(other, "".join(M.Sequence(n, f).conf() for n, f in SEQS_B + [("x", [F("uncgi")])]).encode())
        put(broken, b"sequence \"default\" { lower\n")
    return {"f": [other, broken, os.path.join(d, "home/.detoxrc"), os.path.join(d, "no such.rc")],
            "s": [n for n, _ in SEQS] + ["nosuch", "x"]}


def spelling(case):
    rng = case.rng
    conf, given, seq, env = meaning(case)
    flags = [f for f in "rS" if rng.random() < 0.5] + (["n"] if rng.random() < 0.15 else []) + (["v"] if rng.random() < 0.35 else [])
    pool = FILES + LINKS + DIRS
    files = rng.sample(pool, rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.2:
        files.insert(rng.randint(0, len(files)), rng.choice([b"missing file", b"", b" "]))
    if rng.random() < 0.1:
        files.insert(rng.randint(0, len(files)), rng.choice(files))     # named twice
        case.count("named_twice")
    base = Scene(case, 0)
    outcomes = []
    for k in range(3):
        sc = base if k == 0 else Scene(case, k)
        names = [rng.choice([b"./" + f, f]) if k and f.startswith(b"-") else f for f in files] if k == 2 else files
        argv = spell(rng, flags, conf, given, names, plain=k == 0, over=overridden(case))
        r = case.run(argv, cwd=os.fsdecode(sc.top), env=env)
        after = Snap(sc.top)
        args = [(sc.snap.top, f) for f in files if f in sc.snap.dirs[sc.snap.top]]
        run = Run(sc.snap, seq, args, "r" in flags, "S" in flags, (), "n" in flags, "v" in flags)
        try:
            if "n" in flags:
                run.facts = dict(performed=0)
                if after.names() != sc.snap.names():
                    raise Violation("dry-run", "a dry run changed the tree")
            else:
                judge(run, after, {"identity", "dir", "clean", "scope", "hidden", "complete"}, stderr=r.err)
        except Violation as v:
            v.detail.update(argv=argv, stderr=r.err, stdout=r.out[:1500], environment=env, sequence=seq.conf())
            raise
        if r.rc != 0:
            raise Violation("status", "the run ended with %d" % r.rc, argv=argv, stderr=r.err)
        lines = sorted(l.replace(b"./", b"") if k == 2 else l for l in r.out.split(b"\n"))
        out = sorted(l.replace(b"./", b"") for l in lines)
        outcomes.append((argv, sc.state(), out, sorted(r.err.replace(b"./", b"").split(b"\n"))))
        case.count("renamed", run.facts["performed"])
        case.seen("forms", tuple(a if isinstance(a, str) and a.startswith("-") and "/" not in a else "." for a in argv)[:6])
    a = outcomes[0]
    for b in outcomes[1:]:
        for what, x, y in (("tree", a[1], b[1]), ("output", a[2], b[2]), ("messages", a[3], b[3])):
            if x != y:
                diff = sorted(set(x.items()) ^ set(y.items())) if isinstance(x, dict) else [l for l in x if l not in y] + [l for l in y if l not in x]
                raise Violation("differs", "%s differ between %s and %s: %s" % (what, printable(a[0]), printable(b[0]), printable(diff[:6])),
                                environment=env)
    case.evals += 3
    case.note([o[0] for o in outcomes], dict(spellings=[printable(o[0]) for o in outcomes]))


def inline(case):
    rng = case.rng
    conf, given, seq, env = meaning(case)
    d = os.path.join(case.dir(), "in")
    os.mkdir(d)
    names = [bytes(rng.choice(b"aB %4+_-./x") for _ in range(rng.randint(1, 20))) for _ in range(rng.randint(1, 12))]
    data = b"\n".join(names) + rng.choice([b"\n", b""])
    files = []
    if rng.random() < 0.5:
        for f in rng.sample([b"f", b"-n", b"g h", b"--inline", b"-h", b"k"], rng.choice([1, 1, 2])):
            put(os.path.join(os.fsencode(d), f), data)
            files.append(f)
    want = M.inline(seq, data) * max(1, len(files)) if files else M.inline(seq, data)
    flags = ["v"] if rng.random() < 0.2 else []
    flags += [f for f in "rnS" if rng.random() < 0.2]
    results = []
    for how in ("long", "name", "both"):
        argv = spell(rng, flags + (["I"] if how != "name" else []), conf, given, files, over=overridden(case))
        r = case.run(argv, cwd=d, env=env, stdin=data if not files else b"bait\n", inline_name=how != "long")
        results.append((how, argv, r))
        if r.rc != 0 or r.out != want:
            raise Violation("inline", "%s: status %d, %s instead of %s" % (how, r.rc, printable(r.out[:300]), printable(want[:300])), argv=argv,
                            stderr=r.err, input=data)
    if len({r.err for _, _, r in results}) > 1:
        raise Violation("inline", "the messages differ: %s" % printable([r.err for _, _, r in results]))
    if sorted(os.listdir(os.fsencode(d))) != sorted(set(files)) or any(open(os.path.join(os.fsencode(d), f), "rb").read() != data for f in files):
        raise Violation("inline", "inline mode changed its input files", argv=argv)
    case.note([a for _, a, _ in results])


INFO = [["-h"], ["--help"], ["-V"], ["-L"], ["-L", "-v"], ["-vL"], ["-rL"], ["-nV"], ["-rh"], ["-Lr"]]
ERRORS = [["-x"], ["--bogus"], ["-Z"], ["--recursive=1"], ["--inline=x"], ["-rx"], ["-?"], ["--help=1"], ["-1"], ["--special="], ["-é"]]


def harmless(case):
    rng = case.rng
    conf, given, seq, env = meaning(case)
    sc = Scene(case, 0)
    flags = [f for f in "rS" if rng.random() < 0.6] + ["n"] * (rng.random() < 0.2)
    files = rng.sample([f for f in FILES + LINKS + DIRS if not f.startswith(b"-")], 2) + [b"."]
    argv = spell(rng, flags, conf, given, files)
    kind = rng.choice(["info", "info", "error", "error", "noarg"])
    if kind == "noarg":
        argv = [a for a in argv if a != "--"] + [rng.choice(["-f", "-s", "-rf", "-rs"])]
        extra = argv[-1:]
    else:
        extra = rng.choice(INFO if kind == "info" else ERRORS)
        # anywhere an option may stand
        end = argv.index("--") if "--" in argv else len(argv)
        ok = [i for i in range(end + 1) if i == 0 or not (isinstance(argv[i - 1], str) and argv[i - 1].startswith("-") and
                                                          not argv[i - 1].startswith("--") and argv[i - 1][-1] in "fs" and
                                                          valueless(argv[i - 1]))]
        i = rng.choice(ok)
        argv = argv[:i] + extra + argv[i:]
    by_name = rng.random() < 0.2
    r = case.run(argv, cwd=os.fsdecode(sc.top), env=env, inline_name=by_name, mon={}, stdin=b"")
    after = Snap(sc.top)
    from checks.tree import MUTATING
    done = [e for e in r.events if e.name in MUTATING and (e.a.startswith(b"/dev/") is False)]
    if after.names() != sc.snap.names() or done:
        raise Violation("effect", "%s changed the tree: %s" % (printable(extra), printable(done)), argv=argv, stderr=r.err, stdout=r.out[:800])
    if not (r.out + r.err).strip():
        raise Violation("silent", "%s printed nothing" % printable(extra), argv=argv)
    if kind == "info":
        if r.rc != 0:
            raise Violation("status", "%s ended with %d" % (printable(extra), r.rc), argv=argv, stderr=r.err)
        need = b"sequence" if "L" in "".join(extra) else b"usage: " if "h" in "".join(extra) else b"detox"
        if need not in r.out:
            raise Violation("output", "%s printed %s" % (printable(extra), printable(r.out[:300])), argv=argv)
        if extra in (["-V"], ["-nV"]) and (b"usage" in r.out + r.err or len(r.out.splitlines()) != 1):
            raise Violation("output", "%s printed %s" % (printable(extra), printable(r.out[:300])), argv=argv)
        seqs = SEQS if conf else SEQS_B
        if "L" in "".join(extra) and any(n.encode() not in r.out for n, _ in seqs):
            raise Violation("output", "-L did not list all sequences", argv=argv, stdout=r.out)
    case.seen("kinds", tuple(extra))
    case.note(argv)


def valueless(a):
    """A bundle like -rf whose value is the next argument."""
    for i, c in enumerate(a[1:]):
        if c in "fs":
            return i == len(a) - 2
    return False


def nofiles(case):
    rng = case.rng
    conf, given, seq, env = meaning(case)
    sc = Scene(case, 0)
    flags = [f for f in "rSnv" if rng.random() < 0.4]
    argv = spell(rng, flags, conf, given, [])
    r = case.run(argv, cwd=os.fsdecode(sc.top), env=env, stdin=b"a b\n")
    if Snap(sc.top).names() != sc.snap.names():
        raise Violation("effect", "without file arguments the tree was changed", argv=argv)
    if r.rc == 0 or r.signal or b"usage" not in r.out + r.err:
        raise Violation("usage", "without file arguments: status %d, %s" % (r.rc, printable((r.out + r.err)[:300])), argv=argv)
    case.note(argv)


class C31(Check):
    prop = "C31"
    scale = 2
    technique = "runtime monitoring: equivalent command lines on equal trees compared with each other and with the model"
    rule = "distinct groups of command lines run"
    need_mon = True
    parts = [("spelling", spelling, 900, 12000), ("inline", inline, 500, 6000), ("harmless", harmless, 900, 10000), ("nofiles", nofiles, 150, 1000)]


CHECKS = [C31]
