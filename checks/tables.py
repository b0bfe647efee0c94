"""C28-C30, C33: table files, built-in tables, the table store and the helper tools."""
import os, re, resource, subprocess

from lib import conf as C, model as M
from lib.build import REPO, VARIANTS, VERIF, BuildError
from lib.core import Check, Violation, printable
from lib.trees import Snap, write_conf
from checks.config import Places, put
from checks.filters import TableDir, batch, rand_bytes, rand_locale

F = M.Filter


def utf8(c):
    """UTF-8 in the general form, up to six bytes."""
    if c < 0x80:
        return bytes([c])
    for n, top in ((2, 0x800), (3, 0x10000), (4, 0x200000), (5, 0x4000000), (6, 0x80000000)):
        if c < top:
            out = [0x80 | c >> 6 * k & 0x3F for k in range(n - 1)]
            lead = (0xFF << (8 - n)) & 0xFF | c >> 6 * (n - 1)
            return bytes([lead] + out[::-1])


# ---------------------------------------------------------------- table texts

WORDS = [b"_", b"-", b"x", b"ae", b"_and_", b"\xc3\xa9", b"\xe2\x82\xac", b"\\", b"\\n", b"%", b"#", b"a#b", b"0x41", b"start", b"end", b"12", b"%s",
         b"AE", b"a\"b", b"a'b", b"...", b"\xff", b"\xdf\xb0", b"}{;", b"default", b"??=", b"\\u00e9", b"$(x)"]


def rand_value(rng, quotes=True):
    r = rng.random()
    if r < 0.45:
        return rng.choice(WORDS)
    if r < 0.6:
        return b""
    if r < 0.8:
        return rng.choice([b"a b", b" ", b"  x", b"x  ", b"a\tb", b"two words here", b"# not a comment", b"it's", b"say \"x\"", b"\t", b"'"])
    if r < 0.9:
        return bytes(rng.choice(b"abcXYZ019_-.") for _ in range(rng.choice([2, 3, 5, 8, 17, 60])))
    return bytes(rng.choice(b"lmnop") for _ in range(rng.choice([10, 100, 250, 900, 900, 1015, 1023, 1030, 3000])))


def form(rng, v):
    """A way of writing a translation."""
    ways = []
    if b'"' not in v:
        ways.append(b'"' + v + b'"')
    if b"'" not in v:
        ways.append(b"'" + v + b"'")
    if v and not re.search(rb"\s", v) and v[:1] not in (b'"', b"'"):
        ways += [v, v, v]
    return rng.choice(ways)


def number(rng, c):
    return rng.choice([b"%d" % c, b"0x%x" % c, b"0x%04X" % c, b"0X%X" % c, b"0%o" % c, b"0x%06x" % c])


def rand_keys(rng, limit, n):
    """n codes (fewer if the range is small) in one of the shapes that store and parser treat differently."""
    shape = rng.choice(["dense", "dense", "sparse", "modulo", "high", "cluster"])
    if shape == "dense":
        start = rng.choice([1, 0x20, 0x80, 0xA0, 0x400])
        ks = list(range(start, start + n))
    elif shape == "sparse":
        ks = [rng.randint(1, limit) for _ in range(n)]
    elif shape == "modulo":
        m = rng.choice([256, 500, 501, 512, 1000, 4096])
        a = rng.randint(1, 255)
        ks = [a + m * k for k in range(n)]
    elif shape == "high":
        ks = [limit - k for k in range(n)]
    else:
        ks = []
        while len(ks) < n:
            a = rng.randint(1, limit)
            ks += range(a, a + rng.choice([1, 5, 40]))
    seen, out = set(), []
    for k in ks:
        k = (k - 1) % limit + 1
        if k not in seen:
            seen.add(k)
            out.append(k)
    order = rng.choice(["up", "up", "down", "shuffle", "shuffle"])
    if order == "down":
        out.reverse()
    elif order == "shuffle":
        rng.shuffle(out)
    return out[:n], shape + "/" + order


LANGS = {"C": [b"C", b"c"], "C.utf8": [b"C", b"C.utf8"], "de_DE.utf8": [b"de", b"DE", b"de_DE", b"de_DE.utf8"],
         "en_US.utf8": [b"en", b"En", b"en_US"], "nonsense": []}
ALL_LANGS = [b"C", b"de", b"de_DE", b"en", b"en_US", b"fr", b"de_AT", b"english", b"tr_TR"]


def matches(lang, locale):
    return any(l.lower() == lang.lower() for l in LANGS[locale])


def rand_table_text(rng, limit, n, locale="C", languages=True, dups=True, big=True):
    """-> (text, Table, description)"""
    blocks = rng.choice([1, 1, 1, 2, 3]) if n else 1
    keys, shape = rand_keys(rng, limit, n)
    if dups and keys and rng.random() < 0.5:
        keys += [rng.choice(keys) for _ in range(rng.choice([1, 3, max(1, n // 10)]))]
    t = M.Table()
    lines = []
    dflt = rng.choice([None, None, b"_", b"", b"X Y", b"default", b"\xc3\xbc", b"dd" * 40, b"a\"b", b"x\\y\\", b"it's", b"\\t\\n\"%d", b"??=\\"])
    where = rng.randint(0, blocks)
    big_at = rng.randrange(len(keys)) if keys else -1
    cut = sorted(rng.randint(0, len(keys)) for _ in range(blocks - 1)) + [len(keys)]
    used_langs = 0

    def noise():
        if rng.random() < 0.1:
            lines.append(rng.choice([b"", b"# comment", b"#0x41 no", b"#end", b"   ", b"\t", b"ending", b"  nothing here", b"x", b"endless 0x41", b"-", b"'"]))
            if rng.random() < 0.1:      # a long comment, with something that would be a row at every place a buffer may end
                lines.append(b"#" + rng.choice([b"0x41 no ", b"end ", b"start ", b"default q ", b"x"]) * rng.randint(10, 700))

    def default():
        t.default = dflt or None
        if dups and rng.random() < 0.2:
            lines.append(rng.choice([b"default earlier", b"default 'e f'", b"default", b"default \"\""]))
        v = rng.choice([b"", b" ", b" \"\"", b" ''"]) if dflt == b"" else rng.choice([b" ", b"\t", b"\t\t "]) + form(rng, dflt)
        lines.append(rng.choice([b"default", b"Default", b"DEFAULT", b"\tdefault"]) + v)

    pos = 0
    for b in range(blocks):
        noise()
        if where == b and dflt is not None:
            default()
        lang = None
        if languages and rng.random() < 0.4:
            lang = rng.choice(ALL_LANGS + LANGS[locale] * 2)
        active = lang is None or matches(lang, locale)
        used_langs += lang is not None
        s = rng.choice([b"start", b"Start", b"START", b"  start"])
        if lang is not None:
            s += rng.choice([b" ", b"\t"]) + rng.choice([lang, b'"' + lang + b'"', b"'" + lang + b"'"])
        lines.append(s)
        for k in keys[pos:cut[b]]:
            v = rand_value(rng)
            noise()
            line = rng.choice([b"", b"", b" ", b"\t"]) + number(rng, k) + rng.choice([b" ", b"\t", b"\t\t", b"   "]) + form(rng, v)
            line += rng.choice([b"", b"", b"", b" ", b"\t# comment", b" # \"quoted\" 'c'", b"  0x41 y"])
            if rng.random() < 0.01:
                line += b" # " + rng.choice([b"0x42 z ", b"end ", b" "]) * rng.randint(100, 600)
            lines.append(line)
            if active:
                t.rows[k] = v
        pos = cut[b]
        noise()
        lines.append(rng.choice([b"end", b"END", b"End", b" end", b"end "]))
    if where == blocks and dflt is not None:
        default()
    return b"\n".join(lines) + rng.choice([b"\n", b""]), t, (shape, blocks, used_langs)


def probe_names(rng, kind, t, limit, extra=600):
    """Names that look up every code of the table, its neighbours, and others, several to a name."""
    codes = set(t.rows)
    if len(codes) > 10000:
        some = list(t.rows)
        codes = set(some[:2000] + some[-2000:] + rng.sample(some, 6000) + [min(some), max(some)])
    for k in rng.sample(sorted(codes), 300) if len(t.rows) > 10000 else list(codes)[:3000]:
        codes |= {k - 1, k + 1}
    if kind == "utf_8":
        codes |= {rng.randint(1, 0x10FFFF) for _ in range(extra)} | {rng.randint(1, 0x7FFFFFFF) for _ in range(30)}
        codes |= set(range(1, 0x180))
        codes = [c for c in codes if 0 < c < 0x80000000 and c != 10]
        enc = utf8
    else:
        codes = [c for c in range(1, 256) if c != 10]
        enc = lambda c: bytes([c])
    rng.shuffle(codes)
    names, i = [], 0
    while i < len(codes):
        k = rng.choice([1, 2, 5, 20])
        n = b"".join(enc(c) for c in codes[i:i + k])
        if not M.protected(n):
            names.append(n)
        i += k
    return names, len(codes)


def dense(rng):
    """As many rows in as few bytes as can be."""
    t = M.Table()
    n = rng.choice([90, 400, 498, 499, 500, 501, 502, 600, 800, 999, 1000, 2000, rng.randint(400, 1200)])
    keys = list(range(1, n + 1))
    if rng.random() < 0.3:
        rng.shuffle(keys)
    sep = rng.choice([b" ", b"\t"])
    lines = [b"start"]
    for k in keys:
        v = rng.choice([b"a", b"Z", b"_", b"-", b"x"])
        lines.append(b"%d" % k + sep + v)
        t.rows[k] = v
    if rng.random() < 0.7:
        lines.append(b"end")
    return b"\n".join(lines) + rng.choice([b"\n", b""]), t, ("dense", 1, 0)


def large_tables(case):
    tables(case, [9000, 20000, 35000, 70000])


def tables(case, large=None):
    rng = case.rng
    kind = "utf_8" if large else rng.choice(["utf_8", "utf_8", "utf_8", "safe", "iso8859_1"])
    limit = rng.choice([0x10FFFF, 0x10FFFF, 0xFFFF, 0x7FFFFFFF]) if kind == "utf_8" else rng.choice([255, 255, 400])
    sizes = [0, 1, 2, 5, 30, 120, 254, 300, 499, 500, 501, 900]
    if case.index % 40 == 0:
        sizes = [3000, 8000]
    if large:
        sizes, limit = large[case.index % len(large):][:1], rng.choice([0x10FFFF, 0x7FFFFFFF])
    locale = rng.choice(["C", "C", "C.utf8", "de_DE.utf8", "en_US.utf8", "nonsense"])
    n = rng.choice(sizes)
    if not large and case.index % 20 == 13:
        text, t, desc = dense(rng)
        kind = "utf_8"
    else:
        text, t, desc = rand_table_text(rng, limit, n, locale)
    again = M.parse_table(text, b"" if locale == "nonsense" else locale.encode())
    assert again.rows == t.rows and again.default == t.default, "generator and model disagree"
    p = os.path.join(case.dir(), "t.tbl")
    put(p, text)
    seq = M.Sequence("s", [F(kind, filename=p, table=t)])
    env = {"LC_ALL": locale}
    if rng.random() < 0.3:
        env = {"LC_ALL": None, "LC_CTYPE": locale, "LANG": rng.choice(["de_DE.utf8", "C", "en_US.utf8"]),
               "LC_MESSAGES": rng.choice(["de_DE.utf8", "C"])}
    names, codes = probe_names(rng, kind, t, limit, 100 if large else 600)
    try:
        batch(case, seq, names, env=env, key="translation")
    except Violation as v:
        v.detail["table"] = text[:2500]
        raise
    case.count("codes_looked_up", codes)
    case.count("rows", len(t.rows))
    case.seen("shapes", (desc, n > 500, t.default is None))
    case.seen("locales", locale)
    case.note(text, dict(kind=kind, rows=len(t.rows), shape=str(desc), locale=locale))


class C28(Check):
    prop = "C28"
    scale = 2
    technique = "runtime monitoring: generated table files, every code looked up through a filter against the generator's dictionary"
    rule = "distinct table file texts, each looked up for all its codes, their neighbours and others"
    parts = [("tables", tables, 1400, 20000), ("large", large_tables, 8, 80)]


# ---------------------------------------------------------------- C29

CHUNKS = 64


def both(case, kind, builtin, names, env=None):
    """The built-in and the shipped file must give the same output."""
    file = os.path.join(case.w.shared["tables"], builtin + ".tbl")
    out = []
    data = b"\n".join(names) + b"\n"
    for f in (F(kind, builtin=builtin), F(kind, filename=file)):
        conf = write_conf(case, M.Sequence("s", [f]))
        r = case.run(["-f", conf, "-s", "s", "--inline"], stdin=data, env=env, log=False)
        if r.rc != 0:
            raise Violation("status", "%s %s: status %d" % (kind, f.conf(), r.rc), stderr=r.err)
        out.append(r.out.split(b"\n"))
    a, b = out
    if a != b:
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation("differs", "%s filter, table %s: %s becomes %s with the built-in table and %s with the file" % (
            kind, builtin, printable(names[k:k + 1]), printable(a[k:k + 1]), printable(b[k:k + 1])),
            hex=[x.hex() for x in (names[k:k + 1] + a[k:k + 1] + b[k:k + 1])], env=env)
    case.evals += len(names)
    case.count("names_compared", len(names))


def codes(case):
    """All code points, exhaustively."""
    rng = case.rng
    names = [utf8(c) for c in range(case.index + 1, 0x110000, CHUNKS) if c not in (10, 0x2E)]
    if case.index == 0:
        names += [utf8(c) for c in (0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF)] + [b".", b"\xc0\x80", b"\xe0\x80\x80"]
    both(case, "utf_8", "unicode", names, rand_locale(case))
    case.count("code_points", len(names))
    case.note(("codes", case.index))


def octets(case):
    """All bytes and pairs of bytes for the 8-bit filters, and random text, with every table."""
    rng = case.rng
    kind = ["safe", "iso8859_1", "utf_8"][case.index % 3]
    table = ["safe", "iso8859_1", "cp1252", "unicode"][case.index // 3 % 4]
    names = [bytes([b]) for b in range(1, 256) if b not in (10, 0x2E)]
    if case.index < 12:
        names += [bytes([a, b]) for a in range(1, 256) for b in range(1, 256) if 10 not in (a, b)]
    for _ in range(400):
        n = rand_bytes(rng, rng.randint(1, 60), rng.choice([bytes(range(1, 256)), bytes(range(0x80, 256)), bytes(range(32, 127))]))
        names.append(n.replace(b"\n", b"x"))
    names += ["".join(chr(rng.choice([rng.randint(0x20, 0x24F), rng.randint(0x20, 0x2FF), rng.randint(0x1E00, 0x2200),
                                      rng.randint(0xE000, 0x10FFFF)])) for _ in range(rng.randint(1, 30))).encode() for _ in range(300)]
    both(case, kind, table, names, rand_locale(case))
    case.seen("pairs_of_filter_and_table", (kind, table))
    case.note(("octets", kind, table, case.index))


def strip_source(out):
    return re.sub(rb"(?m)^\tsource file: .*\n", b"", out)


def installation(case):
    """Nothing installed, the shipped detoxrc alone, and a complete installation behave alike."""
    rng = case.rng
    setups = []
    rc = case.w.shared["detoxrc"]
    own = os.path.join(case.dir(), "own.rc")
    put(own, rc)
    setups.append(("nothing installed", [], {}, None))
    setups.append(("-f detoxrc", ["-f", own], {}, None))
    pl = Places(case)
    where = rng.choice(["sys", "etc", "local", "home", "xdg"])
    put(pl.real[where], rc)
    which = rng.choice([0, 1, 2])
    for n, data in case.w.shared["table_files"].items():
        put(pl.tables[which] + n + ".tbl", data)
    setups.append(("installed (%s, tables %d)" % (where, which), [], pl.env, pl.mon))
    env = rand_locale(case)
    seqs = case.w.shared["names"]
    s = rng.choice([None] + seqs)
    opts = [] if s is None else ["-s", s]
    names = []
    for _ in range(60):
        r = rng.random()
        if r < 0.5:
            n = rand_bytes(rng, rng.randint(1, 30), rng.choice([bytes(range(1, 256)), bytes(range(0x80, 256)), bytes(range(32, 127))]))
        else:
            n = "".join(chr(rng.choice([rng.randint(0x20, 0x24F), rng.randint(0x1E00, 0x2200)])) for _ in range(rng.randint(1, 20))).encode()
        names.append(n.replace(b"\n", b"x").replace(b"/", b"%2f") if not M.protected(n) else b"x")
    data = b"\n".join(names) + b"\n"
    # a tree with one entry per name whose outcome does not depend on the others
    results = []
    for what, argv, e, mon in setups:
        e = {**env, **e}
        res = {}
        for k, extra, stdin in (("-L", ["-L"], b""), ("-L -v", ["-L", "-v"], b""), ("inline", ["--inline"], data)):
            r = case.run(argv + opts + extra, env=e, mon=mon, stdin=stdin, log=False)
            res[k] = (r.rc, strip_source(r.out), r.err)
        d = os.path.join(case.dir(), "d")
        os.mkdir(d)
        for n in (b"{arch}", b"a b", b"c&d", b"caf\xc3\xa9 1", b"e\xe9 2", b"%41 3", b"U P", b"CVS"):
            if n == b"{arch}":
                os.mkdir(os.path.join(os.fsencode(d), n))
                put(os.path.join(os.fsencode(d), n, b"in ner"), b"1")
            else:
                put(os.path.join(os.fsencode(d), n), n)
        r = case.run(argv + opts + ["-r", "."], cwd=d, env=e, mon=mon, log=False)
        tree = sorted(os.path.relpath(os.path.join(root, f), os.fsencode(d)) for root, _, fs in os.walk(os.fsencode(d)) for f in fs)
        res["tree"] = (r.rc, tree, r.err)
        import shutil
        shutil.rmtree(d)
        results.append((what, res))
    base = results[0]
    for what, res in results[1:]:
        for k in res:
            if res[k] != base[1][k]:
                raise Violation("installation", "%s with %s gives %s, %s gives %s" % (
                    k, what, printable(res[k])[:3], base[0], printable(base[1][k])[:3]), sequence=s, env=env)
    case.seen("sequences", s)
    case.seen("locations", (where, which))
    case.count("comparisons", 8)
    case.note(("installation", where, which, s, data))


class C29(TableDir):
    prop = "C29"
    level = "exploration"
    technique = "runtime monitoring: differential runs, built-in against shipped files, all code points and bytes"
    rule = "chunks of the exhaustive code point and byte-pair comparison, and distinct installations with a sequence"
    need_mon = True
    parts = [("codes", codes, CHUNKS, CHUNKS), ("octets", octets, 36, 600), ("installation", installation, 400, 6000)]
    note = "All code points up to U+10FFFF and all bytes and pairs of bytes are compared in every run; longer names are sampled."

    def setup(self):
        super().setup()
        self.shared["detoxrc"] = open(os.path.join(REPO, "etc/detoxrc"), "rb").read()
        self.shared["table_files"] = {n: open(os.path.join(REPO, "table", n + ".tbl"), "rb").read()
                                      for n in ("safe", "unicode", "iso8859_1", "cp1252")}
        self.shared["names"] = [s.name for s in M.shipped()]


# ---------------------------------------------------------------- C30

def history(case):
    rng = case.rng
    ops, want = [], []
    live = None

    def op(line, result):
        ops.append(line)
        want.append(result)

    def hx(v):
        return "-" if v is None else "=" + v.hex()

    def st():
        longest = max([len(v) for v in rows.values()], default=0)
        return (len(rows), longest, max(rows, default=0), hx(dflt))

    cap = rng.choice([1, 2, 3, 5, 8, 16, 100, 256, 499, 500])
    size = rng.choice([0, -1]) if rng.random() < 0.05 else cap
    op("n %d" % size, "n 1")
    cap = cap if size > 0 else 500
    if rng.random() < 0.4:
        op("h 0", "h")
    rows, dflt = {}, None
    shape = rng.choice(["small", "modulo", "wide", "dense", "high"])
    m = rng.choice([cap, cap, 2, 3, 256, 500, max(1, cap // 2)])
    top = rng.choice([0x7FFFFFFF, 0xFFFFFFFF])

    def key():
        if rows and rng.random() < 0.35:
            return rng.choice(list(rows))
        if shape == "small":
            return rng.randint(0, cap + 2)
        if shape == "modulo":
            return rng.randint(1, 5) + m * rng.randint(0, cap + 2)
        if shape == "dense":
            return rng.randint(1, 2 * cap + 2)
        if shape == "high":
            return top - rng.randint(0, 2 * cap)
        return rng.randint(1, top)

    for _ in range(rng.choice([30, 120, 400])):
        r = rng.random()
        k = key()
        if r < 0.45:
            v = rng.choice([b"", b"_", b"x", b"ab", bytes(rng.randint(1, 255) for _ in range(rng.choice([1, 3, 20, 300])))])
            ok = k != 0 and (k in rows or len(rows) < cap)
            op("p %d =%s" % (k, v.hex()), "p %d" % ok)
            if ok:
                rows[k] = v
            elif k != 0:
                case.count("refusals_when_full")
        elif r < 0.9:
            op("g %d" % k, "g " + hx(rows.get(k)))
            case.count("hits" if k in rows else "misses")
        elif r < 0.93:
            dflt = rng.choice([b"_", b"", b"longer default"])
            op("d =%s" % dflt.hex(), "d")
        elif r < 0.97:
            cap = max(len(rows), 1) + rng.choice([0, 0, 1, 3, 50, 256, len(rows)])
            use = rng.randrange(2)
            c = rng.choice("rrb")
            op("%s %d %d" % (c, cap, use), (c, "1") + st())
            if rng.random() < 0.3:
                m = cap
            case.count("resizes")
            for q in rows:
                op("g %d" % q, "g " + hx(rows[q]))
        else:
            op("g %d" % k, "g " + hx(rows.get(k)))
    for q in rows:
        op("g %d" % q, "g " + hx(rows[q]))
    text = "\n".join(ops) + "\n"
    exe = case.bins["ops-asan"]
    e = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99", "PATH": "/usr/bin:/bin"}
    p = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=case.timeout)
    case.count("executions")
    got = p.stdout.decode().split("\n")[:-1]
    for i, (o, w, g) in enumerate(zip(ops, want, got)):
        if isinstance(w, tuple):
            m2 = re.fullmatch(r"(\w) (\d) used (\d+) max (\d+) key (\d+) default (.*)", g)
            gg = (m2.group(1), m2.group(2), int(m2.group(3)), int(m2.group(4)), int(m2.group(5)), m2.group(6)) if m2 else g
            ok = gg == w
        else:
            ok = g == w
        if not ok:
            raise Violation("map", "operation %d (%s) gave %s instead of %s" % (i, o, g, w), history=ops[max(0, i - 40):i + 1], first=ops[:3])
    if p.returncode != 0 or len(got) != len(ops):
        raise Violation("end", "status %d after %d of %d operations: %s" % (p.returncode, len(got), len(ops),
                                                                          printable(p.stderr[:1500])), history=ops[max(0, len(got) - 40):len(got) + 1])
    case.count("operations", len(ops))
    case.evals = len(ops)
    case.seen("shapes", (shape, cap))
    case.note(text, dict(shape=shape, operations=len(ops), first=ops[:12]))


class C30(Check):
    prop = "C30"
    technique = "runtime monitoring: offline map checker over logged histories of the table store, under AddressSanitizer"
    rule = "distinct histories of operations on the table store"
    variants = ()
    parts = [("history", history, 3000, 40000)]

    def setup(self):
        extra = [os.path.join(VERIF, "harness/table_ops.c")]
        try:
            self.bins["ops-asan"] = self.tree.build("ops-asan", sources=["table.c", "wrapped.c"], target="table_ops", extra=extra,
                                                    **VARIANTS["asan"])
        except BuildError:
            # the store may have moved: link everything but the main program
            self.bins["ops-asan"] = self.tree.build("ops-all", sources=self.tree.sources("detox"), exclude=("detox.c",), target="table_ops",
                                                    extra=extra, **VARIANTS["asan"])


# ---------------------------------------------------------------- C33

def tool(case, name, args, stdin=None):
    # a tool gone wrong may ask for a lot of memory
    p = subprocess.run([case.bins[name]] + args, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, cwd=case.dir(), timeout=case.timeout,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
    case.count("executions")
    return p


def generator(case):
    rng = case.rng
    limit = rng.choice([255, 0x2FF, 0xFFFF, 0x10FFFF, 0x7FFFFFFF])
    shipped = ["safe", "unicode", "iso8859_1", "cp1252"]
    if case.index < len(shipped):
        text = case.w.shared["table_files"][shipped[case.index]]
        t = M.parse_table(text)
    else:
        text, t, _ = rand_table_text(rng, limit, rng.choice([1, 2, 5, 40, 255, 256, 257, 300, 700]), languages=rng.random() < 0.2)
        if limit == 0x7FFFFFFF and case.index % 3:
            top = rng.choice([limit, limit - 1, limit - 500])
            text += b"\nstart\n0x%x top\nend\n" % top
            t.rows[top] = b"top"
        if not t.rows:
            return
    p = os.path.join(case.dir(), "t.tbl")
    put(p, text)
    r = tool(case, "gen", [p])
    if r.returncode != 0:
        raise Violation("generator", "the generator ended with %d" % r.returncode, stderr=r.stderr, table=text[:2000])
    src = os.path.join(case.dir(), "generated.c")
    put(src, r.stdout)
    exe = os.path.join(case.dir(), "g")
    c = subprocess.run(["gcc", "-w", "-O0", "-I" + case.w.shared["src"], '-DGENERATED="%s"' % src, os.path.join(case.w.shared["harness"], "gen_main.c"),
                        *case.w.shared["objects"], "-o", exe, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if c.returncode != 0:
        raise Violation("generator", "the output does not compile: %s" % printable(c.stdout[:600]), table=text[:2000], output=r.stdout[:2000])
    keys = set(t.rows) | {k + 1 for k in t.rows} | {k - 1 for k in t.rows if k > 1} | {rng.randint(1, 0x10FFFF) for _ in range(50)}
    keys = sorted(keys)
    rng.shuffle(keys)
    q = subprocess.run([exe], input="\n".join(map(str, keys)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = q.stdout.decode().split("\n")
    want = "%d %d %d" % (len(t.rows), max(map(len, t.rows.values())), max(t.rows))
    if q.returncode != 0 or lines[0] != want:
        raise Violation("generator", "entries, longest and largest code are %s instead of %s" % (lines[:1], want), table=text[:2000])
    hx = lambda v: "-" if v is None else "=" + v.hex()
    if lines[1] != hx(t.default):
        raise Violation("generator", "default %s instead of %s" % (lines[1], hx(t.default)), table=text[:2000])
    for k, g in zip(keys, lines[2:]):
        if g != hx(t.rows.get(k)):
            raise Violation("generator", "code 0x%x gives %s instead of %s" % (k, g, hx(t.rows.get(k))), table=text[:2500])
    case.count("generated_tables")
    case.count("codes_looked_up", len(keys))
    case.note((b"gen", text), dict(rows=len(t.rows)))


_ESC = {ord("a"): 7, ord("b"): 8, ord("t"): 9, ord("n"): 10, ord("v"): 11, ord("f"): 12, ord("r"): 13, ord('"'): 34, ord("'"): 39,
        ord("?"): 63, ord("\\"): 92}


def c_text(s):
    """The value of a C string literal's text, by the rules of the language (greedy \\x, up to three octal digits)."""
    out, i = bytearray(), 0
    while i < len(s):
        c = s[i]
        if c in (10, 34):
            raise ValueError("unescaped %r" % chr(c))
        if c != 92:
            out.append(c)
            i += 1
            continue
        e = s[i + 1]
        i += 2
        if e in _ESC:
            out.append(_ESC[e])
        elif 48 <= e < 56:
            j = i - 1
            while j < len(s) and j < i + 2 and 48 <= s[j] < 56:
                j += 1
            out.append(int(s[i - 1:j], 8))
            i = j
        elif e == 120:
            j = i
            while j < len(s) and chr(s[j]) in "0123456789abcdefABCDEF":
                j += 1
            v = int(s[i:j], 16)
            if v > 255:
                raise ValueError("\\x%x out of range" % v)
            out.append(v)
            i = j
        elif e in (117, 85):
            n = 4 if e == 117 else 8
            v = int(s[i:i + n], 16)
            if v < 0xA0 and v not in (0x24, 0x40, 0x60) or 0xD800 <= v < 0xE000 or v > 0x10FFFF:
                raise ValueError("\\u%04x is not allowed" % v)
            out += chr(v).encode()
            i += n
        else:
            raise ValueError("escape \\%c" % e)
    return bytes(out)


def escape(case):
    rng = case.rng
    names = []
    if case.index < 16:
        # all code points, one to a line, and next to digits
        for c in range(1 + case.index, 0x110000, 16):
            if c == 10 or 0xD800 <= c < 0xE000 or c == 0x2E:
                continue
            names.append(chr(c) + ("" if c % 3 else rng.choice("0123456789abcdefABCDEFxnu\"?\\")))
    else:
        for _ in range(3000):
            names.append("".join(chr(rng.choice([rng.randint(1, 0x7F), rng.randint(1, 0x7F), rng.choice(b"\"\\'?0x9aFun"), rng.randint(0x80, 0x9F),
                                                 rng.randint(0x80, 0x2FF), rng.randint(0xE000, 0x10FFFF)])) for _ in range(rng.randint(1, 30))).replace("\n", "n"))
    names = [n.encode() for n in names]
    data = b"\n".join(names) + b"\n"
    r = tool(case, "esc", [], data)
    got = r.stdout.split(b"\n")[:-1]
    if r.returncode != 0 or len(got) != len(names):
        raise Violation("escape", "status %d, %d lines for %d" % (r.returncode, len(got), len(names)), stderr=r.stderr[:500])
    for n, g in zip(names, got):
        if M.protected(n):
            continue
        if any(not 0x20 <= b < 0x7F for b in g):
            raise Violation("escape", "%s became %s, which is not all printable ASCII" % (printable(n), printable(g)), hex=n.hex())
        try:
            v = c_text(g)
        except (ValueError, IndexError) as e:
            raise Violation("escape", "%s became %s, which C cannot read: %s" % (printable(n), printable(g), e), hex=n.hex())
        if v != n:
            raise Violation("escape", "%s became %s, which C reads as %s" % (printable(n), printable(g), printable(v)), hex=n.hex())
    # a compiler's opinion
    some = [(n, g) for n, g in zip(names, got) if not M.protected(n)]
    some = rng.sample(some, 400)
    src = os.path.join(case.dir(), "e.c")
    put(src, b"#include <stdio.h>\n#include <string.h>\n#define P(x) fwrite(x, 1, sizeof(x) - 1, stdout), putchar('\\n')\nint main(void) {\n" +
        b"".join(b"P(\"" + g + b"\");\n" for _, g in some) + b"return 0; }\n")
    exe = os.path.join(case.dir(), "e")
    c = subprocess.run(["gcc", "-w", "-O0", src, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if c.returncode != 0:
        raise Violation("escape", "the output does not compile: %s" % printable(c.stdout[:600]))
    q = subprocess.run([exe], stdout=subprocess.PIPE)
    if q.stdout != b"".join(n + b"\n" for n, _ in some):
        raise Violation("escape", "compiled, the output differs from the input")
    case.evals += len(names)
    case.count("lines_escaped", len(names))
    case.note((b"esc", data[:4000]))


def checker(case):
    rng = case.rng
    text, t, _ = rand_table_text(rng, rng.choice([255, 0xFFFF, 0x10FFFF, 0x7FFFFFFF]), rng.choice([1, 2, 5, 40, 120, 255, 256, 257, 500, 700]),
                                 languages=False, dups=rng.random() < 0.4)
    repeated = len(re.findall(rb"(?mi)^\s*(0x[0-9a-f]+|\d+)\s", text)) != len(t.rows)
    p = os.path.join(case.dir(), "t.tbl")
    put(p, text)
    opts = rng.choice([[], [], ["-l"], ["-d"], ["-b"], ["-v"], ["-b", "-d"], ["-l", "-b"]])
    r = tool(case, "chk", opts + [p])
    if r.returncode != 0:
        raise Violation("checker", "a proper table was refused with %d" % r.returncode, stderr=r.stderr, options=opts, table=text[:2500])
    for what, want in (("used", len(t.rows)), ("longest entry", max(map(len, t.rows.values()), default=0)), ("maximum key", max(t.rows, default=0))):
        m = re.findall(rb"(?m)^%s: (\S+)$" % what.encode(), r.stdout)
        if repeated and what == "longest entry" and m:
            continue        # may be that of a row replaced later
        if not m or any(int(x, 0) != want for x in m):
            raise Violation("checker", "%s: %s instead of %d" % (what, printable(m), want), options=opts, table=text[:2500])
    if "-d" in opts and "-v" not in opts:
        rows = {}
        for m in re.finditer(rb"(?m)^index: \d+, key: (0x[0-9a-f]+), data: (.*)$", r.stdout):
            rows[int(m.group(1), 16)] = m.group(2)
        if rows != t.rows:
            raise Violation("checker", "the dump shows %s instead of %s" % (printable(sorted(rows.items() - t.rows.items())[:5]),
                                                                        printable(sorted(t.rows.items() - rows.items())[:5])), table=text[:2500])
    if b"Failed" in r.stderr:
        raise Violation("checker", "a proper table raised an error: %s" % printable(r.stderr[:200]), options=opts, table=text[:2500])
    case.count("tables_checked")
    case.note((b"chk", text, tuple(opts)))


def unreadable(case):
    """Files that cannot be read as a table are reported by the tools, as they are by detox."""
    rng = case.rng
    d = case.dir()
    kind = ["missing", "directory", "denied", "below", "dangling", "mem"][case.index % 6]
    p = {"mem": "/proc/self/mem"}.get(kind) or os.path.join(d, rng.choice(["t.tbl", "a table", "-t", "caf\u00e9.tbl"]))
    if kind == "directory":
        os.mkdir(p)
    elif kind in ("denied", "below"):
        put(p, b"start\n0x41 a\nend\n")
        if kind == "denied":
            os.chmod(p, 0)
        else:
            p += "/x.tbl"
    elif kind == "dangling":
        os.symlink("nowhere", p)
    conf = os.path.join(d, "c.rc")
    put(conf, b'sequence "default" { safe { filename "' + os.fsencode(p) + b'"; }; };\n')
    for what, exe, argv in (("check-table", "chk", rng.choice([[], ["-b"], ["-l"], ["-d", "-b"], ["-v"]]) + [p]), ("generate-builtin-table", "gen", [p]),
                            ("detox", "detox", ["-f", conf, "--inline"])):
        r = tool(case, exe, argv)
        if r.returncode == 0 or r.returncode < 0 or not r.stderr:
            raise Violation("unreadable", "%s of a table that cannot be read (%s) ended with %d" % (what, kind, r.returncode), stderr=r.stderr,
                            stdout=r.stdout[:500], arguments=argv)
    case.seen("unreadable", kind)
    case.count("refusals")
    case.note((kind, os.path.basename(p), case.index % 40))


class C33(Check):
    prop = "C33"
    technique = "runtime monitoring: tool output compiled, decoded and compared with the model"
    rule = "distinct table files and texts put through a tool"
    variants = ()
    parts = [("generator", generator, 240, 3000), ("escape", escape, 24, 400), ("checker", checker, 900, 12000), ("unreadable", unreadable, 60, 600)]
    note = "escape-utf-8 is compared for every code point; tables and longer texts are sampled."

    def setup(self):
        import shutil
        for n, t in (("gen", "generate_builtin_table"), ("esc", "escape_utf_8"), ("chk", "check_table"), ("detox", "detox")):
            self.bins[n] = self.tree.build(n, target=t)
        self.shared["src"] = self.tree.src
        b = os.path.join(self.scratch, "build-gen")
        self.shared["objects"] = [os.path.join(b, o) for o in os.listdir(b) if o.endswith(".o") and not o.startswith("generate_builtin_table")]
        h = os.path.join(self.scratch, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        self.shared["harness"] = h
        self.shared["table_files"] = {n: open(os.path.join(REPO, "table", n + ".tbl"), "rb").read()
                                      for n in ("safe", "unicode", "iso8859_1", "cp1252")}


CHECKS = [C28, C29, C30, C33]
