"""C15-C24: what the filters, sequences and inline mode make of a name."""
import itertools, os, random, subprocess, threading, time

from lib import model as M, trees as T
from lib.core import Check, Violation, printable
from lib.trees import Snap, rand_sequence, write_conf

F = M.F
ALL = bytes(c for c in range(1, 256) if c != 10)


def conf_of(case, seq, **kw):
    return write_conf(case, seq, **kw)


def batch(case, seq, names, conf=None, env=None, key="result", inline_name=None):
    """Run names (one per line) through inline mode and compare each line with the model. Returns the lines."""
    rng = case.rng
    conf = conf or conf_of(case, seq)
    data = b"\n".join(names) + b"\n"
    argv = ["-f", conf, "-s", seq.name]
    by_name = rng.random() < 0.3 if inline_name is None else inline_name
    if not by_name:
        argv.insert(rng.choice([0, 2, 4]), "--inline")
    if rng.random() < 0.3:
        p = os.path.join(case.dir(), "stream")
        open(p, "wb").write(data)
        argv.append(p)
        r = case.run(argv, stdin=None, env=env, log=False, inline_name=by_name)
    else:
        r = case.run(argv, stdin=data, env=env, log=False, inline_name=by_name)
    if r.rc != 0:
        raise Violation("status", "inline mode ended with %d" % r.rc, stderr=r.err, sequence=seq.conf())
    got = r.out.split(b"\n")
    if got[-1:] != [b""] or len(got) != len(names) + 1:
        # find the first deviation for the report
        want = [(n if M.protected(n) else seq.run(n)) for n in names]
        for n, w, g in itertools.zip_longest(names, want, got[:-1]):
            if w != g:
                break
        raise Violation("lines", "%d lines in, %d out; first difference at %s: %s instead of %s" % (
            len(names), len(got) - 1, printable(n), printable(g), printable(w)), sequence=seq.conf())
    for n, g in zip(names, got):
        w = n if M.protected(n) else seq.run(n)
        if g != w:
            raise Violation(key, "%s became %s instead of %s" % (printable(n), printable(g), printable(w)),
                            hex=[n[:400].hex(), g[:400].hex(), w[:400].hex()], sequence=seq.conf(), env=env)
    case.evals += len(names)
    case.count("names_compared", len(names))
    return got[:-1]


def slices(case, total, parts):
    """The case.index-th of parts ranges over an enumeration (round robin)."""
    return range(case.index % parts, total, parts)


def words(alphabet, upto):
    for n in range(1, upto + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield b"".join(w)


def enumerate_slice(case, alphabet, upto, parts):
    return [w for k, w in enumerate(words(alphabet, upto)) if k % parts == case.index % parts]


def rand_bytes(rng, n, alphabet=ALL):
    return bytes(rng.choices(alphabet, k=n))


LENGTHS = [1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1022, 1023, 1024,
           1025, 2000, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 20000, 65535, 65536, 65537]


def rand_len(rng):
    r = rng.random()
    return rng.randint(1, 12) if r < 0.5 else rng.randint(1, 300) if r < 0.85 else rng.choice(LENGTHS)


def note_batch(case, names, sample=True):
    for n in names:
        case.note(n)
    if names:
        case.sample = case.sample or dict(name=names[len(names) // 2][:80], lines=len(names))


class FilterCheck(Check):
    technique = "runtime monitoring: differential oracle against an independent model over enumerated and random names"


# ---------------------------------------------------------------- C15

DOCUMENTED = {**{c: b"_" for c in range(1, 0x20)}, 0x7F: b"_", 0x20: b"_"}


def safe_variant(case):
    return [F("safe", builtin="safe"), F("safe"), F("safe", filename=os.path.join(case.w.shared["tables"], "safe.tbl"))][
        case.rng.randrange(3)]


def c15_check(case, names):
    f = safe_variant(case)
    seq = M.Sequence("s", [f])
    f.table = M.builtin("safe")
    out = batch(case, seq, names)
    bad = set(b" !\"$&'()*/:;<>?@[\\]`{|}\x7f") | set(range(1, 32))
    for n, o in zip(names, out):
        if bad.intersection(o) and not M.protected(n):
            raise Violation("unsafe", "%s became %s, which holds a character that is hard to work with" % (
                printable(n), printable(o)))
    note_batch(case, [n for n, o in zip(names, out) if n != o])


def c15_pairs(case):
    """Every byte, and every pair of bytes, in the middle of a name and at its ends."""
    a = case.index % 255 + 1
    if a == 10:
        a = 0x2F
    names = [bytes([a])]
    for b in ALL:
        names += [bytes([a, b]), bytes([a, b, 0x78]), b"x" + bytes([a, b]), b"ab" + bytes([a]) + b"c" + bytes([b])]
    case.rng.shuffle(names)
    c15_check(case, names)


def c15_long(case):
    rng = case.rng
    names = []
    for _ in range(40):
        n = rand_len(rng)
        alpha = rng.choice([ALL, b"&", b"& a", bytes(range(128, 256)), b"abcXYZ019-_.~#%+=,^", ALL])
        names.append(rand_bytes(rng, n, alpha))
    c15_check(case, names)


def c15_lengths(case):
    """Names of every length."""
    names = []
    for n in range(1 + case.index % 8, 620, 8):
        names += [b"&" * n, b"a" * (n - 1) + b"&", b" " * n, b"\xe9" * n]
    c15_check(case, names)


def c15_newline(case):
    """A newline cannot come in by inline mode: as a file name."""
    rng = case.rng
    f = safe_variant(case)
    f.table = M.builtin("safe")
    seq = M.Sequence("s", [f])
    names = []
    while len(names) < 30:
        n = bytes(rng.choices(b"\n\n\t ab&(\x01\x7f\xe9-", k=rng.randint(1, 8)))
        if n not in names:
            names.append(n)
    rename_batch(case, seq, names)


def rename_batch(case, seq, names, key="result"):
    """Names as files, each in a directory of its own, cleaned in one run."""
    top = os.path.join(os.fsencode(case.dir()), b"d")
    os.mkdir(top)
    conf = conf_of(case, seq)
    expect = []
    for k, n in enumerate(names):
        d = os.path.join(top, b"%d" % k)
        os.mkdir(d)
        open(os.path.join(d, n), "wb").close()
        t = M.target(seq, n)
        expect.append(n if len(t) > 255 or (n[:1] == b".") else t)
    r = case.run(["-r", "-f", conf, "-s", seq.name, top], log=False)
    got = []
    for k in range(len(names)):
        p = os.path.join(top, b"%d" % k)
        if not os.path.isdir(p):        # the sequence also changed the directory's name
            p = os.path.join(top, seq.run(b"%d" % k))
        got.append(os.listdir(p))
    for n, e, g in zip(names, expect, got):
        if g != [e]:
            raise Violation(key, "file %s became %s instead of %s" % (printable(n), printable(g), printable(e)),
                            sequence=seq.conf(), stderr=r.err)
    case.evals += len(names)
    case.count("files_renamed_or_kept", len(names))
    note_batch(case, [n for n, e in zip(names, expect) if n != e])


class TableDir(FilterCheck):
    """Checks that use the shipped table files."""

    def setup(self):
        import shutil
        from lib.build import REPO
        d = os.path.join(self.scratch, "tables")
        os.mkdir(d)
        for n in ("safe", "unicode", "iso8859_1", "cp1252"):
            shutil.copyfile(os.path.join(REPO, "table", n + ".tbl"), os.path.join(d, n + ".tbl"))
        self.shared["tables"] = d
        try:
            from lib.build import sh
            loc = os.path.join(self.scratch, "locale")
            os.mkdir(loc)
            for name, src, cm in (("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"), ("de_DE.ISO-8859-1", "de_DE", "ISO-8859-1"),
                                  ("ru_RU.KOI8-R", "ru_RU", "KOI8-R"), ("tr_TR.UTF-8", "tr_TR", "UTF-8")):
                subprocess.run(["localedef", "-i", src, "-f", cm, os.path.join(loc, name)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
            self.shared["locales"] = sorted(os.listdir(loc))
            self.shared["locpath"] = loc
        except OSError:
            self.shared["locales"] = []
            self.shared["locpath"] = None


def rand_locale(case):
    """Environment with some locale: C, those of the system, and 8-bit ones made for the check."""
    rng = case.rng
    own = case.w.shared.get("locales") or []
    if own and rng.random() < 0.6:
        e = {"LOCPATH": case.w.shared["locpath"]}
        loc = rng.choice(own)
    else:
        e = {}
        loc = rng.choice(["C", "POSIX", "C.utf8", "de_DE.utf8", "en_US.utf8", "nonsense", ""])
    e["LC_ALL"] = loc if rng.random() < 0.7 else None
    if e["LC_ALL"] is None:
        e["LC_CTYPE" if rng.random() < 0.6 else "LANG"] = loc
    case.seen("locales", loc)
    return e


class C15(TableDir):
    prop = "C15"
    scale = 6
    rule = "distinct names with at least one character that the filter replaces"
    parts = [("pairs", c15_pairs, 255, 255), ("long", c15_long, 60, 2000), ("lengths", c15_lengths, 8, 8),
             ("newline", c15_newline, 12, 120)]


# ---------------------------------------------------------------- C16

def c16_check(case, names, flag=None):
    for rt in ([False, True] if flag is None else [flag]):
        seq = M.Sequence("s", [F("wipeup", remove_trailing=rt)])
        out = batch(case, seq, names)
        again = [o for o in set(out) if o]
        if again:
            res = batch(case, seq, again)
            if res != again:
                bad = [(a, b) for a, b in zip(again, res) if a != b][0]
                raise Violation("not-idempotent", "%s becomes %s when filtered again" % tuple(map(printable, bad)))
        note_batch(case, [n for n, o in zip(names, out) if n != o])


def c16_exhaustive(case):
    upto = 6 if case.tier == "quick" else 8
    c16_check(case, enumerate_slice(case, [b"-", b"_", b".", b"#", b"a"], upto, 24))


def c16_random(case):
    rng = case.rng
    names = []
    for _ in range(150):
        alpha = rng.choice([b"-_.#a", b"-_.", b"-_#", b"-_. a#b", b"ab.-", ALL, b"__--..#x" + bytes([rng.randint(11, 255)])])
        names.append(rand_bytes(rng, rand_len(rng), alpha))
    c16_check(case, names)


class C16(FilterCheck):
    prop = "C16"
    scale = 6
    rule = "distinct names that wipeup changes"
    parts = [("exhaustive", c16_exhaustive, 24, 24), ("random", c16_random, 40, 1200)]


# ---------------------------------------------------------------- C17

def c17_check(case, names, limit):
    seq = M.Sequence("s", [F("max_length", length=limit)])
    out = batch(case, seq, names)
    for n, o in zip(names, out):
        lim = limit or 256
        if M.protected(n):
            continue
        if len(n) <= lim and o != n:
            raise Violation("short-changed", "%s (limit %d) became %s" % (printable(n), lim, printable(o)))
        if len(n) > lim and o != n and len(o) != lim:
            raise Violation("length", "%s (limit %d) became %s" % (printable(n), lim, printable(o)))
    note_batch(case, [n + b"|%d" % (limit or 0) for n, o in zip(names, out) if n != o])


def c17_exhaustive(case):
    upto = 9 if case.tier == "quick" else 12
    names = list(words([b"a", b"."], upto))
    c17_check(case, names, case.index % 12 + 1)


def c17_random(case):
    rng = case.rng
    limit = rng.choice([None, 0, None, rng.randint(1, 40), rng.randint(1, 300), 255, 256, 257, 1000, 4096])
    lim = limit or 256
    names = []
    for _ in range(120):
        n = max(1, rng.choice([lim - 1, lim, lim + 1, lim + 2, lim + rng.randint(0, 50), rng.randint(1, 2 * lim), lim * 3]))
        alpha = rng.choice([b"a", b"ab.", b"abcdefgh.", ALL, b"\xc3\xa9."])
        s = bytearray(rand_bytes(rng, n, alpha))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            # extensions near the end and near the limit of five bytes
            back = rng.choice([rng.randint(1, 12), rng.randint(1, n), lim, lim - 1, lim + 1])
            if 0 < back <= n:
                s[-back] = 0x2E
        names.append(bytes(s))
    c17_check(case, names, limit)


def c17_warning(case):
    """A name whose extension fills the limit is left unchanged with a warning; no other is warned about."""
    rng = case.rng
    limit = rng.randint(1, 30)
    seq = M.Sequence("s", [F("max_length", length=limit)])
    conf = conf_of(case, seq)
    for _ in range(12):
        e = rng.randint(1, limit + 12)
        name = b"n" * rng.randint(0, limit + 5) + b"." + rng.choice([b"", b"", b"tar.", b"abcd.", b"abcde."]) + b"e" * e
        r = case.run(["--inline", "-f", conf, "-s", "s"], stdin=name + b"\n", log=False)
        want = seq.run(name)
        if r.out != want + b"\n":
            raise Violation("result", "%s (limit %d) became %s instead of %s" % (printable(name), limit, printable(r.out), printable(want)))
        stuck = len(name) > limit and want == name
        if stuck and not r.err.strip():
            raise Violation("no-warning", "%s (limit %d) is left unchanged without a warning" % (printable(name), limit))
        case.note((name, limit))
        case.count("stuck_names", int(stuck))
        case.evals += 1


class C17(FilterCheck):
    prop = "C17"
    scale = 6
    rule = "distinct (name, limit) pairs for which the name is cut, or left with a warning"
    parts = [("exhaustive", c17_exhaustive, 12, 12), ("random", c17_random, 120, 2400), ("warning", c17_warning, 16, 400)]


# ---------------------------------------------------------------- C18

def c18(case):
    rng = case.rng
    env = rand_locale(case)
    filters = [F("lower")]
    r = rng.random()
    if r < 0.5:     # a table read from a file sets the locale of the process
        p = os.path.join(case.dir(), "some.tbl")
        open(p, "wb").write(b"start\n0x21 _\nend\n" if rng.random() < 0.7 else b"start de\n0x21 _\nend\nstart\n0x21 _\nend\n")
        t = M.Table({0x21: b"_"})
        kind = rng.choice(["safe", "iso8859_1", "utf_8"])
        f = F(kind, filename=p, table=t)
        filters.insert(rng.choice([0, 1]), f)
    seq = M.Sequence("s", filters)
    names = [bytes([c]) for c in ALL] + [b"x" + bytes([c]) + b"Y" for c in ALL]
    for _ in range(60):
        names.append(rand_bytes(rng, rand_len(rng), rng.choice([ALL, bytes(range(0x41, 0x5B)), bytes(range(0xC0, 256)),
                                                                b"IiI\xc4\xb0\xc4\xb1\xddX\xdd"])))
    for cp in rng.sample(range(0x80, 0x2FFF), 200):
        if not 0xD800 <= cp < 0xE000:
            names.append(chr(cp).encode())
    rng.shuffle(names)
    out = batch(case, seq, names, env=env)
    if len(filters) == 1:
        for n, o in zip(names, out):
            if len(n) != len(o) or any(a != b and not (0x41 <= a <= 0x5A and b == a + 32) for a, b in zip(n, o)):
                raise Violation("result", "%s became %s" % (printable(n), printable(o)), env=env)
    for n, o in zip(names, out):
        if n != o:
            case.note((n, env.get("LC_ALL"), env.get("LC_CTYPE"), env.get("LANG"), len(filters)))
    case.sample = dict(env=env, sequence=seq.conf(), lines=len(names))


class C18(TableDir):
    prop = "C18"
    scale = 6
    rule = "distinct (name, locale, table read or not) combinations in which a name changes"
    parts = [("locales", c18, 160, 2400)]


# ---------------------------------------------------------------- C19

def c19_exhaustive(case):
    alpha = [b"%", b"4", b"1", b"a", b"F", b"+", b"g", b"2", b"5", b"0"]
    names = enumerate_slice(case, alpha, 4 if case.tier == "quick" else 6, 24)
    out = batch(case, M.Sequence("s", [F("uncgi")]), [n for n in names if b"%0a" not in n and b"%0A" not in n])
    note_batch(case, [n for n in names if b"%" in n or b"+" in n])


def c19_codes(case):
    """Every escape in every spelling (a decoded newline as a file name)."""
    rng = case.rng
    names = []
    for hi in b"0123456789abcdefABCDEF":
        for lo in b"0123456789abcdefABCDEF":
            e = b"%" + bytes([hi, lo])
            if e.lower() == b"%0a":
                continue
            names += [e, b"x" + e, e + b"x", b"x" + e + e + b"y", b"%" + e, e[:2], b"a" + e[:2]]
        names += [b"%" + bytes([hi]) + bytes([c]) for c in ALL if not (hi == 0x30 and c in b"aA")]
    names += [b"%" + bytes([c]) + b"1" for c in ALL] + [b"q%" + bytes([c]) for c in ALL]
    rng.shuffle(names)
    batch(case, M.Sequence("s", [F("uncgi")]), names)
    note_batch(case, names)
    rename_batch(case, M.Sequence("s", [F("uncgi")]), [b"%0a", b"x%0A", b"%0ay+", b"a%00b", b"%00", b"%2", b"%", b"z%0a%0A"])


def c19_random(case):
    rng = case.rng
    names = []
    for _ in range(120):
        alpha = rng.choice([b"%", b"%%41", b"%0123456789abcdefABCDEF", b"%%%%+20aG", b"%%25", ALL, b"abc+%2", b"%00%0\xff"])
        s = rand_bytes(rng, rand_len(rng), alpha)
        if rng.random() < 0.5:
            s = b"".join(rng.choice([b"%41", b"%2541", b"%", b"%%", b"%4", b"+", b"%zz", b"%e9", b"x", b"%00", b"%2B", b"%c3%a9",
                                     b"\xc3\xa9", b"%7F", b"%1"]) for _ in range(rng.randint(1, 60)))
        elif rng.random() < 0.5:
            # encoded several times over
            s = bytes(rng.choice(b"+% %&aZ/\xe9\x7f#=2B5") for _ in range(rng.randint(1, 30)))
            for _ in range(rng.randint(1, 3)):
                s = b"".join((b"%%%02x" if rng.random() < 0.5 else b"%%%02X") % c
                             if c in b"%+ " or rng.random() < 0.2 else bytes([c]) for c in s)
        if b"%0a" not in s.lower():
            names.append(s)
    batch(case, M.Sequence("s", [F("uncgi")]), names)
    note_batch(case, names)


class C19(FilterCheck):
    prop = "C19"
    scale = 6
    rule = "distinct names containing '%' or '+'"
    parts = [("exhaustive", c19_exhaustive, 24, 24), ("codes", c19_codes, 4, 40), ("random", c19_random, 120, 2400)]


# ---------------------------------------------------------------- C20

def enc(cp, width=None):
    """The encoding of a value in 1 to 6 bytes (not only the valid ones)."""
    for n, top, lead in ((1, 0x80, 0), (2, 0x800, 0xC0), (3, 0x10000, 0xE0), (4, 0x200000, 0xF0), (5, 0x4000000, 0xF8),
                         (6, 0x80000000, 0xFC)):
        if (width is None and cp < top) or width == n:
            if n == 1:
                return bytes([cp])
            return bytes([lead | cp >> 6 * (n - 1)] + [0x80 | cp >> 6 * k & 0x3F for k in range(n - 2, -1, -1)])


def utf8_filter(case):
    f = [F("utf_8", builtin="unicode"), F("utf_8"),
         F("utf_8", filename=os.path.join(case.w.shared["tables"], "unicode.tbl"))][case.rng.randrange(3)]
    f.table = M.builtin("unicode")
    return f


def c20_check(case, names, f=None):
    stock = f is None
    f = f or utf8_filter(case)
    seq = M.Sequence("s", [f])
    names = [n for n in names if b"\n" not in n and b"\0" not in n and n]
    out = batch(case, seq, names)
    if stock:
        for n, o in zip(names, out):
            if M.protected(n):
                continue
            if any(c < 32 or c == 127 for c in o):
                raise Violation("control", "%s became %s" % (printable(n), printable(o)), hex=n.hex())
            try:
                o.decode("utf-8", "strict")
            except UnicodeDecodeError:
                # only surrogates and over-long forms of other characters may remain
                if is_clean(n):
                    raise Violation("invalid", "%s became %s" % (printable(n), printable(o)), hex=n.hex())
            if is_clean(n) and all(f.table.get(ord(ch)) is None for ch in n.decode()) and o != n:
                raise Violation("changed", "valid text %s became %s" % (printable(n), printable(o)))
    note_batch(case, [n for n in names if max(n) >= 128])


def is_clean(n):
    try:
        n.decode("utf-8", "strict")
        return True
    except UnicodeDecodeError:
        return False


def c20_points(case):
    """Code points, alone and next to others."""
    quick = case.tier == "quick"
    parts = 16
    if quick:
        pts = [c for c in range(1, 0x3100) if c % parts == case.index % parts]
        pts += case.rng.sample(range(0x3100, 0x110000), 2500)
    else:
        pts = range(1 + case.index % parts, 0x110000, parts)
    pts = list(pts) + [0xFFFD, 0xFEFF, 0xFFFE, 0x10FFFF, 0x10FFFE, 0xFFFF, 0x10000, 0xE000, 0xFFFB, 0xFFF9, 0xE0001, 0xE007F]
    c20_check(case, [enc(c) for c in pts if not 0xD800 <= c < 0xE000 and c != 10])
    some = case.rng.sample(pts, min(len(pts), 300))
    c20_check(case, [b"a" + enc(c) + b"\xc3\xa9" + enc(case.rng.choice(pts)) for c in some])


EDGE = [0x01, 0x20, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE2, 0xED, 0xEF,
        0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]


def c20_bytes(case):
    """All pairs of bytes, all triples of boundary bytes, in a name."""
    parts = 16
    names = [bytes([a, b]) for a in range(1 + case.index % parts, 256, parts) for b in ALL]
    names += [bytes([a]) for a in ALL]
    tri = [bytes(t) for k, t in enumerate(itertools.product(EDGE, repeat=3)) if k % parts == case.index % parts]
    names += tri + [t + b"x" for t in tri[::3]]
    for k, t in enumerate(itertools.product(EDGE, repeat=4)):
        if k % (parts * (20 if case.tier == "quick" else 1)) == case.index % parts:
            names.append(bytes(t))
    c20_check(case, names)


def c20_wide(case):
    """Every width, over-long forms, cut short at every byte and by every kind of byte, and long names."""
    rng = case.rng
    names = []
    vals = [0, 1, 9, 0x20, 0x26, 0x2F, 0x41, 0x7F, 0x80, 0xA0, 0xE9, 0x7FF, 0x800, 0x2028, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF,
            0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, rng.randint(0x110000, 0x7FFFFFFF)]
    for v in vals:
        for w in range(1, 7):
            if v >> [7, 11, 16, 21, 26, 31][w - 1]:
                continue
            e = enc(v, w)
            if 0 in e or 10 in e:
                continue
            names += [e, b"x" + e + b"y", e + e]
            for cut in range(1, w):
                names += [e[:cut], e[:cut] + b"z", e[:cut] + e, e[:cut] + b"\xff", e[:cut] + b"\xc3\xa9", b"q" + e[:cut],
                          e[:cut] + rng.choice([b"\x41", b" ", b"%", b"\xf0", b"\xc0"]) + e[cut:]]
    for _ in range(60):
        parts = []
        total = rand_len(rng)
        size = 0
        while size < total:
            size += len(parts[-1]) if parts else 0
            r = rng.random()
            if r < 0.4:
                parts.append(rng.choice([b"a", b"b c", b"\xc3\xa9", b"\xe4\xb8\xad", b"\xf0\x9f\x98\x80", b"\xc2\xa0", b"\xe2\x80\xa8"]))
            elif r < 0.7:
                parts.append(enc(rng.choice(vals[1:-8] + [rng.randint(0x80, 0x10FFFF)])))
            else:
                parts.append(bytes([rng.choice(EDGE)]))
        names.append(b"".join(parts))
    case.rng.shuffle(names)
    c20_check(case, names)
    # other tables: defaults, entries above U+10FFFF, empty translations
    rows = {rng.choice([0x41, 0xE9, 0x2028, 0x1F600, 0x110000, 0x7FFFFFFE, 0x80, 0x7FF, 0x10FFFF, 0x20, rng.randint(1, 0x10FFFF)]):
            rng.choice([b"", b"T", b"long text", b"\xc3\xa9"]) for _ in range(rng.randint(1, 12))}
    t = M.Table(rows, rng.choice([None, b"D", b"??", b"\xe2\x82\xac"]))
    p = os.path.join(case.dir(), "t.tbl")
    open(p, "wb").write(T.table_text(t))
    c20_check(case, names, F("utf_8", filename=p, table=t))


class C20(TableDir):
    prop = "C20"
    scale = 6
    rule = "distinct names holding bytes above 0x7F"
    parts = [("points", c20_points, 16, 16), ("bytes", c20_bytes, 16, 16), ("wide", c20_wide, 40, 1200)]


# ---------------------------------------------------------------- C21

def iso_variants(case, chain):
    """Filters of a chain of table names, from the built-in tables or the shipped files."""
    fs = []
    files = case.rng.random() < 0.5
    for n in chain:
        f = F("iso8859_1", filename=os.path.join(case.w.shared["tables"], n + ".tbl")) if files else F("iso8859_1", builtin=n)
        if not files and n == "iso8859_1" and case.rng.random() < 0.3:
            f = F("iso8859_1")
        f.table = M.builtin(n)
        fs.append(f)
    case.seen("variants", (files, tuple(chain)))
    return fs


EXCEPTIONS = None


def c21_names(case):
    rng = case.rng
    names = [bytes([c]) for c in ALL] + [b"x" + bytes([c]) + b"y" for c in ALL]
    a = case.index
    for k in range(4):
        hi = 0x80 + (a * 4 + k) % 128
        names += [bytes([hi, c]) for c in ALL] + [bytes([c, hi, c]) for c in range(0x80, 256)]
    for _ in range(50):
        names.append(rand_bytes(rng, rand_len(rng), rng.choice([ALL, bytes(range(0x80, 256)), bytes(range(0x80, 0xA0)), b"\xe9a"])))
    rng.shuffle(names)
    return names


def c21(case):
    chain = [["iso8859_1"], ["cp1252", "iso8859_1"], ["cp1252"]][case.index % 3]
    seq = M.Sequence("s", iso_variants(case, chain))
    names = c21_names(case)
    out = batch(case, seq, names)
    t = M.builtin("iso8859_1")
    for n, o in zip(names, out):
        if M.protected(n):
            continue
        if chain == ["iso8859_1"]:
            try:
                text = o.decode("utf-8")
            except UnicodeDecodeError:
                raise Violation("invalid", "%s became %s, not UTF-8" % (printable(n), printable(o)), hex=[n.hex(), o.hex()])
            want = ""
            for c in n:
                # ISO-8859-1 characters are the code points of the same number
                ent = t.rows.get(c)
                want += chr(c) if c < 0x80 or (c >= 0xA0 and (ent is None or ent == chr(c).encode())) else \
                    (ent if ent is not None else (t.default or b"")).decode()
            if text != want:
                raise Violation("result", "%s became %s" % (printable(n), printable(o)), hex=[n.hex(), o.hex()])
        elif chain == ["cp1252", "iso8859_1"] and len(n) == 1 and 0x80 <= n[0] < 0xA0:
            ent = M.builtin("cp1252").rows.get(n[0])
            try:
                ch = n.decode("cp1252")
            except UnicodeDecodeError:
                ch = None
            if ent is not None and ch is not None and ent == ch.encode():
                # the character's bytes go through the second table, as a sequence does
                pass
    note_batch(case, [n + b"|%d" % (case.index % 3) for n in names if max(n) >= 0x80])


def c21_default(case):
    """Other tables with this filter: defaults, rows for ASCII (not used), empty translations."""
    rng = case.rng
    rows = {rng.randint(0x80, 255): rng.choice([b"", b"x", b"longer text", b"\xc3\xa9", b"\xff"]) for _ in range(rng.randint(0, 60))}
    for _ in range(rng.randint(0, 4)):
        rows[rng.randint(1, 0x7F)] = b"ASCII"
    t = M.Table(rows, rng.choice([None, b"D", b"default text", b"\xe9"]))
    p = os.path.join(case.dir(), "t.tbl")
    open(p, "wb").write(T.table_text(t))
    names = c21_names(case)
    batch(case, M.Sequence("s", [F("iso8859_1", filename=p, table=t)]), names)
    note_batch(case, [n + repr(sorted(rows)).encode() for n in names[:50]])


class C21(TableDir):
    prop = "C21"
    scale = 6
    rule = "distinct (name, chain of tables) pairs with a byte above 0x7F"
    parts = [("stock", c21, 96, 384), ("tables", c21_default, 30, 900)]


# ---------------------------------------------------------------- C22

def c22_compose(case):
    """Random sequences: the composition of the model's filters."""
    rng = case.rng
    seq = rand_sequence(rng, case, shipped=0.15, wild=0.6)
    if rng.random() < 0.6:
        fs = []
        for _ in range(rng.randint(2, 8)):
            fs += rand_sequence(rng, case, shipped=0.1, wild=0).filters[:1]
        seq = M.Sequence("s", fs)
    nested = []
    if case.index % 20 == 7:
        # a long sequence, in which every filter shows
        n = rng.choice([12, 20, 31, 33, 40, 64, 65, 100, 130, 150, 257])
        fs = [F("uncgi") for _ in range(n)]
        for _ in range(rng.randint(0, 6)):
            k, kw = rng.choice(KINDS[:4] + KINDS[8:10])
            fs.insert(rng.randint(0, n), F(k, **kw))
        fs.insert(rng.choice([0, len(fs)]), F("lower"))
        seq = M.Sequence("s", fs)
        nested = [b"%" + b"25" * max(0, k) + b"5A b" for k in (1, n // 2, n - 2, n - 1, n, n + 1)]
        case.count("long_sequences")
    names = nested + [T.rand_name(rng, escapes=0.1) for _ in range(20 if nested else 80)]
    names += [rand_bytes(rng, rand_len(rng)) for _ in range(15)]
    names += [b"%252541%2525", b"%2B%2b+", b"A%42C", b"%C3%A9", b"%c3\xa9 .-_x", b"--__..", b"\x93x\x94"]
    keep = []
    for n in names:
        # a newline made on the way would look like two lines
        if b"\n" not in seq.run(n) and b"\n" not in n:
            keep.append(n)
    out = batch(case, seq, keep)
    if len(seq.filters) > 1:
        for n, o in zip(keep, out):
            if n != o:
                case.note((n, seq.conf()))
    case.seen("filter_orders", tuple(f.kind for f in seq.filters))


KINDS = [("safe", dict(builtin="safe")), ("utf_8", dict(builtin="unicode")), ("iso8859_1", dict(builtin="iso8859_1")),
         ("iso8859_1", dict(builtin="cp1252")), ("safe", dict(builtin="unicode")), ("utf_8", dict(builtin="iso8859_1")),
         ("uncgi", {}), ("lower", {}), ("wipeup", {}), ("wipeup", dict(remove_trailing=True)), ("max_length", dict(length=7)),
         ("max_length", dict(length=12)), ("max_length", {}), ("max_length", dict(length=300))]


def c22_pairs(case):
    """Every ordered pair of filters, alone and between others."""
    rng = case.rng
    n = len(KINDS)
    for q in range(n):
        pair = [KINDS[case.index % n], KINDS[q]]
        fs = [F(k, **kw) for k, kw in pair]
        for extra in range(rng.choice([0, 0, 1, 2])):
            k, kw = rng.choice(KINDS)
            fs.insert(rng.randint(0, len(fs)), F(k, **kw))
        seq = M.Sequence("s", fs)
        names = [T.rand_name(rng, escapes=0.1) for _ in range(25)] + [rand_bytes(rng, rand_len(rng)) for _ in range(3)]
        names += [b"a..b", b"a-.-b", b"a__b--c", b"..--", b"%252541%2525", b"%2B%2b+", b"A%42C", b"%C3%A9", b"%c3\xa9 .-_x", b"\x93x\x94",
                  b"A  B.TAR.GZ", b"-ABCDEFGHIJKLM.N", b"x" * 290 + b".Y.Z", b"caf\xc3\xa9 & co", b"caf\xe9 & co", b"\xe2\x82\xac"]
        names = [x for x in names if b"\n" not in x and b"\n" not in seq.run(x)]
        out = batch(case, seq, names)
        for x, o in zip(names, out):
            if x != o:
                case.note((x, seq.conf()))
        case.seen("filter_orders", tuple(f.kind for f in seq.filters))


def c22_shipped(case):
    """Shipped sequences that end in safe and wipeup: only safe characters, no runs, nothing left to do."""
    rng = case.rng
    s = [x for x in M.shipped() if [f.kind for f in x.filters][-1] == "wipeup"][case.index % 6]
    names = [T.rand_name(rng, escapes=0.1) for _ in range(120)] + [rand_bytes(rng, rand_len(rng)) for _ in range(25)]
    names += [w for w in enumerate_slice(case, [b"-", b"_", b".", b" ", b"#", b"&", b"(", b"a"], 4, 60)]
    names += [b"".join(rng.choice([b"%", b"+", b"%20", b"%2B", b"%25", b"%e9", b"-", b"(", b" ", b"A", b"#", b"%C3%A9", b"%2e", b"."])
                       for _ in range(rng.randint(1, 10))) for _ in range(60)]
    names = [n for n in names if b"\n" not in n and b"%0a" not in n.lower()]
    data = b"\n".join(names) + b"\n"
    argv = ["--inline", "-s", s.name]
    if rng.random() < 0.5:
        argv = ["--inline", "-f", os.path.join(case.w.shared["tables"], "detoxrc"), "-s", s.name]
    r = case.run(argv, stdin=data, log=False)
    out = r.out.split(b"\n")[:-1]
    if len(out) != len(names):
        raise Violation("lines", "%d lines in, %d out" % (len(names), len(out)), argv=argv, stderr=r.err)
    unsafe = set(b" !\"$&'()*/:;<>?@[\\]`{|}\x7f") | set(range(1, 32))
    for n, o in zip(names, out):
        if M.protected(n):
            continue
        w = s.run(n)
        if o != w:
            raise Violation("result", "%s: %s became %s instead of %s" % (s.name, printable(n), printable(o), printable(w)))
        if unsafe.intersection(o):
            raise Violation("unsafe", "%s: %s became %s" % (s.name, printable(n), printable(o)))
        if o[:1] in (b"-", b"_", b"#"):
            raise Violation("start", "%s: %s became %s" % (s.name, printable(n), printable(o)))
        if any(o[k:k + 1] in (b"-", b"_", b".") and o[k + 1:k + 2] in (b"-", b"_", b".") for k in range(len(o) - 1)):
            raise Violation("run", "%s: %s became %s" % (s.name, printable(n), printable(o)))
        if n != o:
            case.note((n, s.name))
    if s.name in ("default", "lower", "utf_8"):
        again = [o for o in out if o]
        r = case.run(argv, stdin=b"\n".join(again) + b"\n", log=False)
        if r.out != b"\n".join(again) + b"\n":
            bad = [(a, b) for a, b in zip(again, r.out.split(b"\n")) if a != b][:1]
            raise Violation("unsettled", "%s: running again gives %s" % (s.name, printable(bad)))
        case.count("rerun_names", len(again))
    case.evals = len(names)
    case.count("names_compared", len(names))


class WithRc(TableDir):
    def setup(self):
        import shutil
        from lib.build import REPO
        super().setup()
        shutil.copyfile(os.path.join(REPO, "etc", "detoxrc"), os.path.join(self.shared["tables"], "detoxrc"))


class C22(WithRc):
    prop = "C22"
    rule = "distinct (name, sequence) pairs of several filters in which the name changes"
    parts = [("pairs", c22_pairs, 28, 280), ("compose", c22_compose, 600, 8000), ("shipped", c22_shipped, 90, 1800)]


# ---------------------------------------------------------------- C23

def make_stream(rng, big):
    lines = []
    n = rng.choice([0, 1, 2, 5, 30, 200, 2000 if big else 400])
    longs = rng.random() < 0.5
    for _ in range(n):
        r = rng.random()
        if r < 0.08:
            s = rng.choice([b"", b".", b"..", b"...", b". ", b" ."])
        elif r < 0.16:
            s = rng.choice([b"\0", b"a\0b c", b"\0\0", b"x y\0", b"\0x", b".\0", b"..\0z", b"a b\0" * 3])
        elif r < 0.24 and longs:
            unit = rng.choice([b"a b", b"(", b"\xc3\xa9", b"x", b"&", b"%41"])
            s = (unit * 70000)[:rng.choice(LENGTHS + [100000, 131072, 200001])]
        elif r < 0.3:
            s = rand_bytes(rng, rng.randint(1, 40))
        else:
            s = T.rand_name(rng)
        lines.append(s)
    data = b"\n".join(lines)
    if lines and rng.random() < 0.6:
        data += b"\n"
    return data


def c23(case):
    rng = case.rng
    seq = rand_sequence(rng, case, wild=0.3)
    data = make_stream(rng, case.tier == "thorough" or case.index % 20 == 0)
    # (a newline that a sequence itself makes, as uncgi of %0a, is part of the line's result in the model)
    want = M.inline(seq, data)
    conf = conf_of(case, seq)
    argv = ["-f", conf, "-s", seq.name]
    by_name = rng.random() < 0.4
    if not by_name:
        argv.insert(0, "--inline")
    how = rng.choice(["stdin", "file", "pieces", "pieces", "files", "fifo", "link", "odd"])
    if how == "odd":
        # a file that does not tell its size, or the standard input by name
        p = rng.choice(["/proc/version", "/proc/filesystems", "/proc/cmdline", "/dev/stdin", "/proc/self/fd/0"])
        if p.endswith(("stdin", "/0")):
            how = "stdin"
            argv.append(p)
        elif not os.access(p, os.R_OK):
            how = "file"
    if how == "stdin":
        r = case.run(argv, stdin=data, inline_name=by_name, log=False)
    elif how == "file":
        name = rng.choice(["in", "in put (1)", "-in", "-", "--"])
        p = os.path.join(case.dir(), name)
        open(p, "wb").write(data)
        r = case.run(argv + ["--", rng.choice([p, name])], stdin=b"not this (one)\n", inline_name=by_name, log=False, cwd=case.dir())
    elif how == "odd":
        data = open(p, "rb").read()
        want = M.inline(seq, data)
        r = case.run(argv + [p], stdin=b"not this (one)\n", inline_name=by_name, log=False)
    elif how == "link":
        p = os.path.join(case.dir(), "target")
        open(p, "wb").write(data)
        os.symlink("target", os.path.join(case.dir(), "li nk"))
        r = case.run(argv + ["li nk"], stdin=b"not this (one)\n", inline_name=by_name, log=False, cwd=case.dir())
    elif how == "files":
        # several files: each is a stream of its own
        cut = sorted(rng.randint(0, len(data)) for _ in range(2))
        parts = [data[:cut[0]], data[cut[0]:cut[1]], data[cut[1]:]]
        ps = []
        for k, d in enumerate(parts):
            p = os.path.join(case.dir(), "part%d" % k)
            open(p, "wb").write(d)
            ps.append(p)
        want = b"".join(M.inline(seq, d) for d in parts)
        r = case.run(argv + ps, stdin=None, inline_name=by_name, log=False)
    elif how == "fifo":
        p = os.path.join(case.dir(), "fifo")
        os.mkfifo(p)
        t = threading.Thread(target=feed_fifo, args=(p, data))
        t.daemon = True
        t.start()
        r = case.run(argv + [p], stdin=None, inline_name=by_name, log=False)
        t.join(5)
    else:
        step = rng.choice([1, 2, 3, 7, 100, 1000, 4096, 5000]) if len(data) < 3000 else rng.choice([1000, 4096, 5000, 65536])
        seed = rng.random()

        def feeder(f):
            rr = random.Random(seed)
            try:
                i = 0
                while i < len(data):
                    n = max(1, int(step * rr.random() * 2))
                    os.write(f.fileno(), data[i:i + n])
                    i += n
                    if rr.random() < min(0.2, 40 / (len(data) / step + 1)):
                        time.sleep(0.0005)
                f.close()
            except OSError:
                pass
        r = case.run(argv, feeder=feeder, inline_name=by_name, log=False)
    if r.rc != 0:
        raise Violation("status", "inline mode ended with %d" % r.rc, stderr=r.err, argv=argv)
    if r.out != want:
        g, w = r.out.split(b"\n"), want.split(b"\n")
        k = next((k for k, (a, b) in enumerate(itertools.zip_longest(g, w)) if a != b), -1)
        raise Violation("output", "line %d is %s instead of %s (%s)" % (
            k, printable((g + [b"(none)"] * (k + 1))[k][:200]), printable((w + [b"(none)"] * (k + 1))[k][:200]), how),
            sequence=seq.conf(), input=data[:3000], argv=argv)
    case.count("lines", data.count(b"\n"))
    case.count("bytes", len(data))
    case.seen("deliveries", how)
    if data:
        case.note((data[:2000], len(data), how, seq.conf()), dict(how=how, bytes=len(data), lines=data.count(b"\n")))


def feed_fifo(p, data):
    try:
        with open(p, "wb") as f:
            f.write(data)
    except OSError:
        pass


def c23_context(case):
    """A line's result does not depend on the lines around it."""
    rng = case.rng
    seq = rand_sequence(rng, case, wild=0.2)
    conf = conf_of(case, seq)
    line = rng.choice([T.rand_name(rng), rand_bytes(rng, rng.choice(LENGTHS[:30])), b"a b\0c d", b"."])
    around = [make_stream(rng, False).split(b"\n") for _ in range(2)]
    data = b"\n".join(around[0][:40] + [line] + around[1][:40])
    r1 = case.run(["--inline", "-f", conf, "-s", "s"], stdin=line + b"\n", log=False)
    r2 = case.run(["--inline", "-f", conf, "-s", "s"], stdin=data + b"\n", log=False)
    n = len(b"\n".join(around[0][:40] + [b""]))
    before = M.inline(seq, data[:n])
    if not r2.out.startswith(before):
        raise Violation("output", "the lines before are wrong", sequence=seq.conf(), input=data[:2000])
    if not r2.out[len(before):].startswith(r1.out):
        raise Violation("context", "%s gives %s alone and %s in a stream" % (
            printable(line[:200]), printable(r1.out[:200]), printable(r2.out[len(before):][:200])), sequence=seq.conf())
    case.note((line, len(data)))


def c23_bulk(case):
    """Very many lines, or very long ones."""
    rng = case.rng
    seq = M.Sequence("s", [[M.F("uncgi"), M.F("safe", builtin="safe")], [M.F("lower")], [M.F("utf_8", builtin="unicode"), M.F("lower")],
                           [M.F("safe", builtin="safe"), M.F("wipeup", remove_trailing=True)], [M.F("iso8859_1", builtin="iso8859_1")]][rng.randrange(5)])
    conf = conf_of(case, seq)
    big = case.tier == "thorough"
    if case.index % 2:
        cycle = [T.rand_name(rng) for _ in range(rng.choice([3, 40, 1000]))] + [b"", b".", b"a b\0 c"]
        rng.shuffle(cycle)
        unit = b"".join(c + b"\n" for c in cycle)
        times = (rng.randint(150000, 400000) * (4 if big else 1)) // len(cycle)
        times = min(times, (48 << 20) // (len(M.inline(seq, unit)) + 40 * sum(c > 127 for c in unit) + len(unit)))     # (warnings count)
        data, want = unit * times, M.inline(seq, unit) * times
        tail = rng.choice([b"", b"last (one)"])
        data += tail
        want += M.inline(seq, tail) if tail else b""
    else:
        lines, want = [], []
        for _ in range(rng.randint(1, 4)):
            unit = rng.choice([b"x", b"a b", b"Q", b"%2541z", b"\xc3\xa9a", b"(a)", b"n&"])
            one, two = seq.run(unit), seq.run(unit * 3)
            k = rng.choice([rng.randint(100000, 500000), rng.randint(1 << 20, 3 << 20), rng.choice([1 << 20, 1 << 21, 10 ** 6]) // len(unit)]) * (5 if big else 1)
            ok = seq.run(unit * 40) == one * 40 and two == one * 3
            if not ok or sum(map(len, want)) + max(len(one), len(unit)) * k > 48 << 20:
                continue
            lines += [unit * k, b"short one"]
            want += [one * k, seq.run(b"short one")]
        if not lines:
            lines, want = [b"y" * 3000000], [b"y" * 3000000]
        data, want = b"\n".join(lines) + b"\n", b"\n".join(want) + b"\n"
    argv = ["--inline", "-f", conf, "-s", "s"]
    how = rng.choice(["stdin", "file"])
    if how == "stdin":
        r = case.run(argv, stdin=data, log=False)
    else:
        p = os.path.join(case.dir(), "in put")
        open(p, "wb").write(data)
        r = case.run(argv + [p], stdin=None, log=False)
    if r.rc != 0:
        raise Violation("status", "inline mode ended with %d" % r.rc, stderr=r.err[:2000], argv=argv)
    if r.out != want:
        n = next((k for k in range(0, max(len(want), len(r.out)), 4096) if r.out[k:k + 4096] != want[k:k + 4096]), 0)
        n += next((k for k in range(4097) if r.out[n + k:n + k + 1] != want[n + k:n + k + 1]), 0)
        raise Violation("output", "%d bytes (%d lines) give %d bytes instead of %d; first difference in line %d, at byte %d: %s instead of %s" % (
            len(data), data.count(b"\n"), len(r.out), len(want), want.count(b"\n", 0, n), n, printable(r.out[n:n + 80]), printable(want[n:n + 80])),
            sequence=seq.conf(), argv=argv)
    case.count("lines", data.count(b"\n"))
    case.count("bytes", len(data))
    case.note((data[:2000], len(data), how, seq.conf()), dict(how=how, bytes=len(data), lines=data.count(b"\n")))


class C23(FilterCheck):
    prop = "C23"
    technique = "runtime monitoring: stream oracle over varied sizes, contents and deliveries"
    rule = "distinct non-empty streams (content, delivery, sequence)"
    parts = [("stream", c23, 700, 12000), ("context", c23_context, 200, 3000),
             ("bulk", c23_bulk, 16, 120)]


# ---------------------------------------------------------------- C24

def c24(case):
    """One name, one sequence: the same result however it gets there."""
    rng = case.rng
    shipped = rng.random() < 0.5
    seq = rand_sequence(rng, case, wild=0.4) if not shipped else rng.choice(M.shipped())
    names = []
    while len(names) < 10:
        n = T.rand_name(rng, newline=True, escapes=0.05)
        if n not in names and n[:1] != b"." and n != b"{arch}":     # (walking skips those)
            names.append(n)
    conf = None if shipped else conf_of(case, seq)
    base = (["-f", conf] if conf else []) + ["-s", seq.name]
    top = os.path.join(os.fsencode(case.dir()), b"top")
    os.mkdir(top)
    forms = ["walk", "rel", "dot", "abs", "many", "deep", "verbose", "dir", "link", "odd-path"]
    rng.shuffle(forms)
    results = {}
    for form in forms:
        env = rand_locale(case)
        d = os.path.join(top, form.encode())
        if form == "deep":
            d = os.path.join(d, rng.choice([b"p q", b"x" * 200, b"..x/y(z", b"%41/%2e", b"-/-"]))
        elif form == "odd-path":
            d = os.path.join(d, rng.choice([b"A B+%41 \xc3\xa9", b"ab.cd.ef/gh", b"\n\n", b"_-_/__"]))
        os.makedirs(d)
        order = list(names)
        rng.shuffle(order)
        made = {}
        for n in order:
            # one directory per name, so that names cannot collide
            x = os.path.join(d, b"%d" % names.index(n))
            os.mkdir(x)
            p = os.path.join(x, n)
            if form == "dir":
                os.mkdir(p)
            elif form == "link":
                os.symlink(b"t", p)
            else:
                open(p, "wb").close()
            made[n] = x
        extra, cwd, args = [], None, []
        if form == "walk":
            args = [made[n] + b"/" for n in order]
            extra = rng.choice([[], ["-r"]])
        elif form == "rel":
            cwd = os.fsdecode(d)
            args = [b"%d/" % names.index(n) + n for n in order]
        elif form == "dot":
            cwd = os.fsdecode(d)
            args = [b"./%d//" % names.index(n) + n for n in order]
        else:
            args = [os.path.join(made[n], n) for n in order]
        if form == "link":
            extra = ["--special"]
        if form == "verbose":
            extra = ["-v"]
        if form == "many":
            # each in a run of its own
            for a in args:
                case.run(base + ["--", a], env=env, log=False)
        else:
            case.run(base + extra + ["--"] + args, cwd=cwd, env=env, log=False)
        for n in names:
            ls = os.listdir(made[n])
            results.setdefault(n, {})[form] = ls[0] if len(ls) == 1 else tuple(ls)
    # inline, where the name can be a line
    lines = [n for n in names if b"\n" not in n and not M.protected(n)]
    env = rand_locale(case)
    r = case.run(base + ["--inline"] + (["-v"] if rng.random() < 0.3 else []), stdin=b"".join(n + b"\n" for n in lines), env=env, log=False)
    if sum(seq.run(n).count(b"\n") for n in lines) == 0:
        out = r.out.split(b"\n")
        if len(out) != len(lines) + 1:
            raise Violation("inline", "%d lines in, %d out" % (len(lines), len(out) - 1))
        for n, o in zip(lines, out):
            # rename mode keeps the old name where the cleaned one cannot be used
            if M.usable(o) and len(o) <= 255:
                results[n]["inline"] = o
    for n in names:
        got = set(results[n].values())
        if len(got) > 1:
            raise Violation("differs", "%s became different things: %s" % (printable(n), printable(results[n])),
                            sequence=seq.conf(), env=env)
        want = M.target(seq, n)
        if len(want) <= 255 and got != {want}:
            raise Violation("result", "%s became %s instead of %s" % (printable(n), printable(got), printable(want)), sequence=seq.conf())
        if want != n:
            case.note((n, seq.conf()), dict(name=n, cleaned=want, forms=len(results[n])))
        case.count("comparisons", len(results[n]))
    case.evals = len(names)


def relatives(rng):
    """Names that are easily taken for one another."""
    n = rng.choice([3, 15, 31, 63, 64, 127, 200, 254, 255, 256, 300, 511, 512, 1023, 1024, 4100])
    stem = rand_bytes(rng, n, rng.choice([b"ab c", b"x", b"A b.-_%41+", b"\xc3\xa9", b"abc XYZ()&"]))
    stem = stem.replace(b"\n", b"")[:n]
    out = [stem, stem + b".one", stem + b".two", stem[:-1], stem.upper(), stem.lower(), b" " + stem, stem + b" ", stem[1:] + stem[:1]]
    for _ in range(6):
        k = rng.randrange(max(1, len(stem)))
        out.append(stem[:k] + rng.choice([b"X", b" ", b"(", b"%", b"\xff"]) + stem[k + 1:])
    return [o for o in out if o and not M.protected(o)]


def c24_history(case):
    """What was cleaned before does not matter: related names in many orders, and each by itself."""
    rng = case.rng
    seq = rand_sequence(rng, case, wild=0.4, tables=True)
    if rng.random() < 0.4:
        seq = M.Sequence("s", M.SAFE_WIPE() + [F("max_length", length=rng.choice([10, 40, 100, 255]))])
    conf = conf_of(case, seq)
    argv = ["-f", conf, "-s", seq.name, "--inline"]
    pool = relatives(rng) + ([T.rand_name(rng) for _ in range(3)] if rng.random() < 0.5 else [])
    pool = [n for n in pool if b"\n" not in n and b"\n" not in seq.run(n) and not M.protected(n)]
    if not pool:
        return
    alone = {}
    for n in rng.sample(pool, min(3, len(pool))):
        alone[n] = case.run(argv, stdin=n + b"\n", log=False).out
    for _ in range(3):
        order = [rng.choice(pool) for _ in range(rng.choice([10, 40, 120]))]
        r = case.run(argv, stdin=b"".join(n + b"\n" for n in order), log=False)
        out = r.out.split(b"\n")
        if len(out) != len(order) + 1:
            raise Violation("history-lines", "%d lines in, %d out" % (len(order), len(out) - 1), sequence=seq.conf())
        for k, (n, o) in enumerate(zip(order, out)):
            want = alone[n][:-1] if n in alone else seq.run(n)
            if o != want:
                raise Violation("history", "line %d, %s, became %s and not %s" % (k, printable(n), printable(o), printable(want)),
                                sequence=seq.conf(), before=order[max(0, k - 2):k])
        case.count("lines_in_context", len(order))
    # in a tree, the same names in several directories
    names = sorted({n for n in pool if len(n) <= 255 and b"/" not in n and n[:1] != b"." and n != b"{arch}"})
    names = [n for n in names if len(M.target(seq, n)) <= 255]
    top = os.path.join(os.fsencode(case.dir()), b"h")
    os.mkdir(top)
    made, args = [], []
    for k in range(24 if names else 0):
        n = rng.choice(names)
        d = os.path.join(top, b"%02d" % k)
        os.mkdir(d)
        open(os.path.join(d, n), "wb").close()
        made.append((d, n))
        args.append(os.path.join(d, n))
    if args:
        r = case.run(["-f", conf, "-s", seq.name, "-r", "--"] + (args if rng.random() < 0.5 else [d + b"/" for d, _ in made]), log=False)
        for d, n in made:
            got, want = os.listdir(d), [M.target(seq, n)]
            if got != want:
                raise Violation("history-tree", "%s became %s and not %s" % (printable(n), printable(got), printable(want)),
                                sequence=seq.conf())
    for n in pool:
        if seq.run(n) != n:
            case.note((n, seq.conf()))
    case.evals = len(pool)


class C24(TableDir):
    prop = "C24"
    technique = "runtime monitoring: metamorphic equality over modes, paths, orders and locales"
    rule = "distinct (name, sequence) pairs that change, each through about eleven ways"
    parts = [("forms", c24, 220, 4000), ("history", c24_history, 400, 6000)]


CHECKS = [C15, C16, C17, C18, C19, C20, C21, C22, C23, C24]
