"""C12: sanitizer builds under hostile names, streams, configurations, tables, environments and command lines."""
import os, random

from lib import model as M, trees as T
from lib.core import Check, Violation, printable
from lib.trees import Spec, rand_sequence, write_conf
from checks.filters import LENGTHS, make_stream, rand_bytes
from checks.tree import One

TEXT = (b"AddressSanitizer", b"runtime error:", b"MemorySanitizer", b"UndefinedBehavior", b"LeakSanitizer", b"stack smashing",
        b"buffer overflow detected", b"corrupted", b"double free", b"invalid pointer")


def clean(case, r, what, **detail):
    bad = [t for t in TEXT if t in r.err]
    if r.signal or r.rc == 99 or bad:
        k = r.err.find(bad[0]) if bad else 0
        raise Violation("memory", "%s: status %d: %s" % (what, r.rc, printable(r.err[max(0, k - 100):k + 700])), argv=r.argv[1:],
                        stderr=r.err[max(0, k - 200):k + 2500], **detail)
    if r.rc != 0 and not r.err.strip() and not r.out.strip():
        raise Violation("silent-failure", "%s: status %d without a message" % (what, r.rc), argv=r.argv[1:], **detail)


def exe(case):
    e = "msan" if "msan" in case.bins and case.index % 4 == 3 else "asan"
    case.count(e + "_runs")
    return e


def hostile_table(rng):
    """Table files: proper ones of all shapes, and damaged ones."""
    lines = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        lines.append(b"default " + rng.choice([b"_", b"\"\"", b"\"long default " + b"d" * rng.choice([1, 20, 300, 900]) + b"\"",
                                               b"", b"'x y'", b"\"unfinished", b"X" * 50]))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lines.append(rng.choice([b"start", b"start", b"start", b"start de", b"start \"\"", b"start en_US", b"START C", b"start " + b"l" * 300]))
        n = rng.choice([0, 1, 3, 10, 60, 300])
        dense = rng.random() < 0.5
        for k in range(n):
            c = k + rng.choice([1, 1, 0x20, 0x80]) if dense else rng.choice([rng.randint(1, 255), rng.randint(1, 0x10FFFF),
                                                                              2 ** 31 - 1, rng.randint(1, 2 ** 31 - 1)])
            c = min(c, 2 ** 31 - 1)
            v = rng.choice([b"_", b"-", b"\"\"", b"''", b"\"a b\"", b"x", b"\"" + b"t" * rng.choice([1, 5, 100, 700]) + b"\"", b"\xc3\xa9",
                            b"_and_"])
            lines.append(rng.choice([b"%d", b"0x%x", b"0%o", b"\t0x%04X"]) % c + rng.choice([b" ", b"\t", b"\t\t ", b"  "]) + v +
                         rng.choice([b"", b"", b" # note", b"  "]))
        if rng.random() < 0.9:
            lines.append(rng.choice([b"end", b"END", b" end"]))
    text = rng.choice([b"\n", b"\n", b"\r\n"]).join(lines) + rng.choice([b"\n", b""])
    r = rng.random()
    if r < 0.35:
        return damage(rng, text)
    if r < 0.4:
        return rand_bytes(rng, rng.randint(0, 3000), bytes(range(256)))
    if r < 0.45:
        return text.replace(b"\n", b"", rng.randint(1, 400))
    return text


def damage(rng, text):
    b = bytearray(text)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        if not b:
            break
        i = rng.randrange(len(b))
        k = rng.randrange(6)
        if k == 0:
            b[i] = rng.randrange(256)
        elif k == 1:
            del b[i:i + rng.choice([1, 2, 10, 100])]
        elif k == 2:
            b[i:i] = bytes([rng.choice(b"\"'#{};\0\n \t\\\xff-0x")])
        elif k == 3:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([3, 20, 200])]
        elif k == 4:
            b[i:i] = rng.choice([b"-1", b"99999999999999999999", b"0x", b"0xffffffff", b"4294967296", b"2147483648", b"-2147483648",
                                 b"a" * 1500, b"\"" * 3, b"%s%n%d", b"00"])
        else:
            del b[i:]
    return bytes(b)


GROWTH = 3000


def growth(tables):
    """A bound on how much chained tables can expand a name: the run time follows it, so the workload keeps it in bounds."""
    k = 1
    for t in tables:
        k *= max(map(len, t.split(b"\n")), default=1) or 1
    return k


def any_sequence(case, rng):
    """A sequence including table filters with hostile tables and limits."""
    tables = []
    fs = []
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        kind = rng.choice(["safe", "utf_8", "iso8859_1", "uncgi", "wipeup", "lower", "max_length", "file", "file", "file"])
        if kind == "file":
            p = os.path.join(case.dir(), "h%d.tbl" % k)
            t = hostile_table(rng)
            if tables and growth(tables + [t]) > GROWTH:
                fs.append(M.Filter(rng.choice(["lower", "wipeup", "uncgi"])))
                continue
            tables.append(t)
            open(p, "wb").write(t)
            fs.append(M.Filter(rng.choice(["safe", "utf_8", "iso8859_1"]), filename=p))
        elif kind == "wipeup":
            fs.append(M.Filter(kind, remove_trailing=rng.random() < 0.5))
        elif kind == "max_length":
            fs.append(M.Filter(kind, length=rng.choice([None, 0, 1, 2, 5, 6, 7, 10, 50, 255, 256, 1000, 70000])))
        elif kind in M.KIND_TABLE and rng.random() < 0.4:
            fs.append(M.Filter(kind))
        elif kind in M.KIND_TABLE:
            fs.append(M.Filter(kind, builtin=rng.choice(["safe", "unicode", "iso8859_1", "cp1252"])))
        else:
            fs.append(M.Filter(kind))
    seq = M.Sequence("s", fs)
    seq.growth = growth(tables)
    return seq


def hostile_name(rng):
    r = rng.random()
    if r < 0.3:
        return T.rand_name(rng, newline=True, escapes=0.3)
    n = rng.choice(LENGTHS) if r < 0.45 else rng.randint(1, 60)
    alpha = rng.choice([bytes(range(1, 256)), bytes(range(128, 256)), b"%", b"%0", b"-_.", b".", b"\xf0\x9f\x98", b"\xfc\xfd\xfe", b"&",
                        b" ", b"\xc0\x80\xe0", b"a.", b"%f", b"\xe2\x80"])
    s = rand_bytes(rng, n, alpha)
    if rng.random() < 0.3:
        s += rng.choice([b"%", b"%4", b"\xc3", b"\xe2\x80", b"\xf0\x9f", b"\xfc\x80\x80", b".", b"-", b"\xff", b"+", b"&"])
    return s


def streams(case):
    rng = case.rng
    seq = any_sequence(case, rng) if rng.random() < 0.7 else rng.choice(M.shipped())
    conf = write_conf(case, seq) if seq.name == "s" else None
    data = b"\n".join(hostile_name(rng) for _ in range(rng.choice([1, 3, 30, 120])))
    if rng.random() < 0.3:
        data += make_stream(rng, False)
    if rng.random() < 0.2:
        data = damage(rng, data)
    data = data[:max(200, 3000000 // getattr(seq, "growth", 1))]
    if rng.random() < 0.7:
        data += b"\n"
    env = {"LC_ALL": rng.choice(["C", "C.utf8", "de_DE.utf8", "en_US.utf8", ""])}
    r = case.run((["-f", conf] if conf else []) + ["--inline", "-s", seq.name] + (["-v"] if rng.random() < 0.1 else []), stdin=data,
                 exe=exe(case), env=env, log=False)
    clean(case, r, "stream", sequence=seq.conf(), input=data[:2000], env=env)
    case.count("bytes_streamed", len(data))
    case.seen("statuses", r.rc)
    case.note((seq.conf(), data[:500], len(data)), dict(sequence=seq.conf(), bytes=len(data)))


def single(case):
    """Exact lengths at the end of a heap block: one name of each length per run of the interesting filters."""
    rng = case.rng
    kind = ["safe", "utf_8", "iso8859_1", "uncgi", "wipeup", "lower", "max_length"][case.index % 7]
    n = case.index // 7 % 80 + 1
    rows = {}
    long = rng.choice([b"L" * rng.choice([2, 3, 9, 40]), b"_and_", b"L" * rng.randint(1, 16), b"L" * rng.randint(1, 16)])
    rows[rng.choice([0x61, 0xE9, 0x26])] = long
    rows[rng.choice([0x62, 0xEA])] = b""
    t = M.Table(rows, rng.choice([None, b"D", b"default" * 5, b"x" * 14]))
    if kind in M.KIND_TABLE:
        p = os.path.join(case.dir(), "t.tbl")
        open(p, "wb").write(T.table_text(t))
        f = M.Filter(kind, filename=p) if rng.random() < 0.7 else M.Filter(kind, builtin=M.KIND_TABLE[kind])
    elif kind == "max_length":
        f = M.Filter(kind, length=rng.randint(1, n + 3))
    else:
        f = M.Filter(kind, remove_trailing=kind == "wipeup" and rng.random() < 0.5)
    seq = M.Sequence("s", [f])
    conf = write_conf(case, seq)
    unit = rng.choice([b"a", b"b", b"&", b"\xe9", b"\xc3\xa9", b"c", b"%", b"%41", b"\xc2", b"\xe0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80",
                       b"\xfc\x84\x80\x80\x80\x80", b"-", b".", b"a.", b"\xff", b"\x01"])
    if kind == "utf_8" and rng.random() < 0.4:
        unit = rng.choice([b"\xc0\x80", b"\xc0\x80", b"\xe0\x80\x80"])     # replaced by something longer than any row
        open(os.path.join(case.dir(), "t.tbl"), "wb").write(T.table_text(M.Table({0x61: b"L" * rng.randint(1, 14)})))
    tail = rng.choice([b"", b"", b"%", b"%4", b"\xc3", b"\xe2\x82", b"\xf0", b".", b".b", b"-"])
    name = (unit * n)[:n] + tail
    e = exe(case)
    lines = [name[i:] for i in range(min(6, len(name)))]
    r = case.run(["--inline", "-f", conf, "-s", "s"], stdin=b"\n".join(lines) + b"\n", exe=e, log=False)
    clean(case, r, "name", sequence=seq.conf(), table=T.table_text(t), input=lines)
    case.note((kind, n, unit, tail))


def rows(case):
    """Tables of every size, with one or a few rows longer than all others anywhere in them, and names made of these."""
    rng = case.rng
    n = rng.choice([rng.randint(1, 40), rng.randint(40, 1300), 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1024, 2000])
    start = rng.choice([1, 0x80, 0x100, 0x4e00])
    codes = [c for c in range(start, start + n + 60) if c not in (0x0a, 0x22, 0x5c)][:n]
    if rng.random() < 0.3:
        rng.shuffle(codes)
    marks = {1, 2, n, n - 1, n // 2, 127, 128, 255, 256, 257, 498, 499, 500, 501, 502, 511, 512, 513, 1000, rng.randint(1, n)}
    marks = [m for m in marks if 1 <= m <= n]
    base = rng.choice([0, 1, 2, 5])
    picked = sorted(rng.sample(marks, min(len(marks), rng.choice([1, 1, 2, 3]))), reverse=rng.random() < 0.5)
    size = rng.randint(base + 1, base + 60)
    long = {p: size - k for k, p in enumerate(picked)}
    lines = [b"start"]
    for k, c in enumerate(codes, 1):
        lines.append(b"0x%x \"%s\"" % (c, (b"L" * long[k] if k in long and long[k] > 0 else b"-+_=a"[:base])))
    lines.append(b"end")
    kind = "safe" if start == 1 and n < 200 else "utf_8"
    if kind == "utf_8" and start == 0x80 and rng.random() < 0.3 and n <= 128:
        kind = "iso8859_1"
    p = os.path.join(case.dir(), "t.tbl")
    with open(p, "wb") as f:
        f.write(b"\n".join(lines) + b"\n")
    seq = M.Sequence("s", [M.Filter(kind, filename=p)])
    conf = write_conf(case, seq)
    char = lambda c: bytes([c]) if kind != "utf_8" else chr(c).encode("utf-8", "surrogatepass")
    names = []
    for pos in long:
        c = codes[pos - 1]
        for m in (1, 2, 3, rng.randint(4, 90)):
            names += [char(c) * m, b"x" * rng.randint(0, 9) + char(c) * m]
    data = b"\n".join(names) + b"\n"
    e = exe(case)
    r = case.run(["--inline", "-f", conf, "-s", "s"], stdin=data, exe=e, log=False)
    clean(case, r, "%d rows, the longest at %s" % (n, sorted(long)), table=b"\n".join(lines)[:2000], input=data[:500])
    case.count("rows", n)
    case.seen("longest_at", tuple(sorted(long)))
    case.note((n, start, tuple(sorted(long.items())), kind, data))


WORDS = ["sequence", "ignore", "safe", "utf_8", "iso8859_1", "uncgi", "wipeup", "max_length", "lower", "remove_trailing", "length",
         "filename", "builtin", "{", "}", ";", "\"", "\"default\"", "default", "\"safe\"", "\"unicode\"", "32", "0", "-1", "99999999999999",
         "0x10", "# comment\n", "\n", " ", "\t", "// c\n", "\"unfinished", "'", "\\", "=", ",", "\"" + "n" * 5000 + "\"", "n" * 3000, "\0", "\xff",
         "\"a\nb\"", "\"/nonexistent\"", "\"%s%n\"", "\r", "{{", "};"]


def hostile_conf(rng, case):
    r = rng.random()
    if r < 0.35:
        text = case.w.shared["detoxrc"]
        return damage(rng, text)
    if r < 0.7:
        return rng.choice([" ", "\n", ""]).join(rng.choices(WORDS, k=rng.choice([1, 5, 30, 200]))).encode("utf-8", "surrogateescape")
    if r < 0.9:
        out = []
        for k in range(rng.choice([1, 3, 40, 300])):
            s = any_sequence(case, rng) if k < 2 else M.Sequence("q%d" % k, [M.Filter("lower")] * rng.choice([1, 1, 30]))
            s = M.Sequence(rng.choice(["s", "q%d" % k, "default", "x" * 300, "a b", "\u00e9"]), s.filters)
            out.append(s.conf())
            if rng.random() < 0.2:
                out.append("ignore {\n" + "".join("\tfilename \"%s\";\n" % rng.choice(["a", "i" * 400, "x y"]) for _ in range(rng.choice([1, 3, 60]))) + "};\n")
        b = "".join(out).encode()
        return damage(rng, b) if rng.random() < 0.4 else b
    return rand_bytes(rng, rng.randint(0, 2000), bytes(range(256)))


def configs(case):
    rng = case.rng
    text = hostile_conf(rng, case)
    p = os.path.join(case.dir(), "c.rc")
    open(p, "wb").write(text)
    name = rng.choice(["s", "default", "q1", "a b", "nosuch"])
    argv = rng.choice([["-L", "-v", "-f", p], ["-L", "-f", p], ["--inline", "-f", p, "-s", name], ["--inline", "-f", p],
                       ["-n", "-f", p, "-s", name, "-r", case.dir()], ["-f", p, "-L", "-v", "-s", name]])
    env = {}
    how = rng.random()
    if how < 0.3:
        # as the user's own file, after another
        home = os.path.join(case.dir(), "home")
        os.makedirs(os.path.join(home, "xdg", "detox"))
        open(os.path.join(home, ".detoxrc"), "wb").write(text)
        open(os.path.join(home, "xdg", "detox", "detoxrc"), "wb").write(hostile_conf(rng, case))
        env = {"HOME": home, "XDG_CONFIG_HOME": os.path.join(home, "xdg")}
        argv = [a for a in argv if a not in ("-f", p)]
    r = case.run(argv, stdin=b"a b\n(c)\n", exe=exe(case), env=env, log=False)
    clean(case, r, "configuration", config=text[:3000], env=env)
    case.seen("statuses", r.rc)
    case.count("accepted" if r.rc == 0 else "rejected")
    case.note(text, dict(config=text[:200], status=r.rc))


def cmdline(case):
    rng = case.rng
    root = case.dir()
    names = [b"a b", b"(c)", b"-r", b"--", b"x"]
    for n in names:
        open(os.path.join(os.fsencode(root), n), "wb").close()
    opts = [["-h"], ["-r"], ["-v"], ["-V"], ["-?"], ["-L"], ["-n"], ["-s", rng.choice(["default", "", "x" * 5000, "\xff", "lower"])],
            ["-f", rng.choice(["/dev/null", "", "/nonexistent", "/" + "y" * 5000, root])], ["--inline"], ["--recursive"], ["--special"], ["--verbose"],
            ["--dry-run"], ["--help"], ["--bad"], ["-Z"], ["-s"], ["-f"], ["--inline=x"], ["--rec"], ["--s"], ["-rvn"], ["-vvv"], ["--"], ["-"], [""],
            ["-rs", "lower"], ["-flower"], ["--verb"], ["--d"]]
    argv = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        argv += rng.choice(opts)
    files = [b"a b", b".", b"..", b"", b"x/", b"nothing", b"a" * 5000, b"/" * 300, b"x" * 255, b"\xff\xfe", b"%s%n", b"./a b", b"(c)", b"/dev/null",
             b"p/" * 2000, b"-", b"%41" * 80]
    if rng.random() < 0.3:
        argv.append("--")
    if rng.random() < 0.8:
        argv += [rng.choice(files) for _ in range(rng.choice([1, 2, 5, 16, 17, 33, 400]))]
    # '..' must not lead out of the scratch directory: one level down
    cwd = os.path.join(root, "in", "side")
    os.makedirs(cwd)
    env = {"DETOX_SEQUENCE": rng.choice([None, "default", "lower", "", "x" * 10000, "\xe9"]),
           "HOME": rng.choice([None, "", "/", root, "/" + "h" * rng.choice([200, 240, 246, 247, 248, 250, 255, 256, 300, 1000, 4096, 9000])]),
           "XDG_CONFIG_HOME": rng.choice([None, "", root, "/" + "x" * rng.choice([200, 238, 239, 240, 241, 242, 250, 256, 300, 5000])]),
           "LC_ALL": rng.choice(["C", "", "de_DE.utf8", "z" * 300, "en_US.utf8"])}
    argv = [a for a in argv if a not in (b"/" * 300,)]
    r = case.run(argv, cwd=cwd, stdin=b"a b\n", exe=exe(case), env=env, log=False)
    clean(case, r, "command line", env={k: v and v[:80] for k, v in env.items()})
    case.seen("statuses", r.rc)
    case.note((argv, sorted((k, str(v)) for k, v in env.items())))


def trees(case):
    rng = case.rng
    e = exe(case)

    class C:
        """The case, running the sanitizer build."""

        def __getattr__(self, n):
            return getattr(case, n)

        def run(self, *a, **k):
            k["exe"] = e
            k["log"] = False
            r = case.run(*a, **k)
            clean(case, r, "tree")
            return r
    case.dir()
    seq = any_sequence(case, rng) if rng.random() < 0.5 else rand_sequence(rng, case)
    # some tables do not load: then nothing runs, which is fine here
    o = One(C(), Spec(escapes=0.2, collide=0.4, newline=True, longs=0.15), seq=M.Sequence("s", seq.filters) if not any(
        f.filename and f.table is None for f in seq.filters) else rand_sequence(rng, case), dry=rng.random() < 0.15)
    case.note(o.argv + sorted(n for es in o.before.dirs.values() for n in es))


def table_tools(case):
    """The table tools, on proper, hostile and damaged tables, and on any text."""
    rng = case.rng
    p = os.path.join(case.dir(), rng.choice(["t.tbl", "t", "a b.tbl", "x" * 200 + ".tbl"]))
    v = "msan" if "msan" in case.bins and case.index % 4 == 3 else "asan"
    which = ["chk", "gen", "chk", "chk", "gen", "chk", "gen", "esc"][case.index // 4 % 8]     # the last takes long to start
    data = b""
    if which == "esc":
        argv = []
        data = b"\n".join(hostile_name(rng) for _ in range(rng.choice([1, 3, 30, 300]))) + rng.choice([b"\n", b""])
    else:
        r = rng.random()
        if r < 0.15:
            text = case.w.shared["tables"][rng.choice(sorted(case.w.shared["tables"]))]
            if r < 0.1:
                text = damage(rng, text)
        elif r < 0.9:
            text = hostile_table(rng)
        else:
            n = rng.choice([254, 255, 256, 257, 499, 500, 501, 502, 700])
            text = b"start\n" + b"".join(b"%d x\n" % k for k in rng.sample(range(1, 5000), n)) + b"end\n"
        open(p, "wb").write(text)
        argv = [a for a in ("-b", "-d", "-l", "-v") if rng.random() < 0.4] if which == "chk" else []
        argv.append(p)
        if rng.random() < 0.05:
            argv = rng.choice([[], [p, p], ["-h"], ["-z"], [p + "/"], [case.dir()], [""], ["-"], ["-bdlv"], ["--", p]])
        data = text
    env = {"LC_ALL": rng.choice(["C", "C.utf8", "de_DE.utf8", "en_US.utf8"])}
    r = case.run(argv, stdin=data if which == "esc" else b"", exe=which + "-" + v, env=env, log=False)
    clean(case, r, which, tool=which, table=data[:3000])
    case.count(v + "_runs")
    case.seen("tool_statuses", (which, r.rc))
    case.note((which, tuple(argv[:-1]), data))


class C12(Check):
    prop = "C12"
    scale = 1.5
    technique = "compiler sanitizers (ASan+UBSan, MSan) under hostile generated workloads"
    rule = "distinct hostile inputs (streams, exact-length names, configurations, command lines, trees) run to their end"
    variants = ("asan", "msan")
    parts = [("stream", streams, 1100, 16000), ("length", single, 1120, 11200), ("rows", rows, 500, 6000), ("config", configs, 1100, 16000),
             ("cmdline", cmdline, 700, 9000), ("tree", trees, 300, 4000), ("tools", table_tools, 480, 8000)]

    def setup(self):
        from lib.build import REPO, VARIANTS
        self.shared["detoxrc"] = open(os.path.join(REPO, "etc", "detoxrc"), "rb").read()
        d = os.path.join(REPO, "table")
        self.shared["tables"] = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if n.endswith(".tbl")}
        for v in self.variants:
            for n, t in (("gen", "generate_builtin_table"), ("chk", "check_table"), ("esc", "escape_utf_8")):
                self.bins[n + "-" + v] = self.tree.build(n + "-" + v, target=t, **VARIANTS[v])


CHECKS = [C12]
