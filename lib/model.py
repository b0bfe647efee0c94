"""Independent reference model of detox: tables, filters, sequences, configurations. Works on bytes."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Table:
    def __init__(self, rows=None, default=None):
        self.rows = dict(rows or {})
        self.default = default or None

    def get(self, code):
        return self.rows.get(code)


def _token(s):
    """A translation at the start of s (no leading blanks): quoted or one word."""
    if s[:1] in (b'"', b"'"):
        q = s[:1]
        end = s.find(q, 1)
        return s[1:end] if end >= 0 else None
    w = s.split(None, 1)
    return w[0] if w else b""


def _int(w):
    """Leading integer as scanf's %i reads it: (value, rest) or None."""
    i = 0
    base = 10
    digits = b"0123456789"
    neg = False
    if w[:1] in (b"+", b"-"):
        neg = w[:1] == b"-"
        i = 1
    if w[i:i + 2].lower() == b"0x":
        base, digits, i = 16, b"0123456789abcdefABCDEF", i + 2
    elif w[i:i + 1] == b"0":
        base, digits = 8, b"01234567"
    j = i
    while j < len(w) and w[j:j + 1] in [bytes([c]) for c in digits]:
        j += 1
    if j == i:
        return None
    v = int(w[i:j], base)
    return (-v if neg else v), w[j:]


def parse_table(text, language=b"C"):
    """The meaning of a table file (only what the documentation defines)."""
    t = Table()
    inside = False
    for line in text.split(b"\n"):
        if line.startswith(b"#"):
            continue
        s = line.strip()
        if not s:
            continue
        word = s.split(None, 1)[0]
        rest = s[len(word):].lstrip()
        if not inside:
            if word.lower().startswith(b"start"):
                lang = _token(rest) if rest else b""
                inside = language.lower().startswith(lang.lower())
            elif word.lower().startswith(b"default"):
                t.default = (_token(rest) if rest else None) or None
            continue
        r = _int(s)
        if r is None or r[0] < 0:
            if word.lower() == b"end":
                inside = False
            continue
        rest = r[1].lstrip()
        if not rest:
            continue
        t.rows[r[0]] = _token(rest)
    return t


def stock(name):
    return parse_table(open(os.path.join(VERIF, "golden", name + ".tbl"), "rb").read())


_stock = {}


def builtin(name):
    if name not in _stock:
        _stock[name] = stock(name)
    return _stock[name]


# ---- filters ----

def f_safe(s, t):
    out = bytearray()
    for b in s:
        r = t.rows.get(b)
        if r is None:
            r = t.default
        if r is None:
            out.append(b)
        else:
            out += r
    return bytes(out)


def f_iso8859_1(s, t):
    out = bytearray()
    for b in s:
        if b < 0x80:
            out.append(b)
            continue
        r = t.rows.get(b)
        if r is None:
            r = t.default
        if r is None:
            out.append(b)
        else:
            out += r
    return bytes(out)


def _width(b):
    if b < 0x80:
        return 1
    if b < 0xC0:
        return -1
    for n, mask, val in ((2, 0xE0, 0xC0), (3, 0xF0, 0xE0), (4, 0xF8, 0xF0), (5, 0xFC, 0xF8), (6, 0xFE, 0xFC)):
        if b & mask == val:
            return n
    return -1


_LEAD = {1: 0x7F, 2: 0x1F, 3: 0x0F, 4: 0x07, 5: 0x03, 6: 0x01}


def f_utf_8(s, t):
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        w = _width(s[i])
        if w < 0:
            out += b"_"
            i += 1
            continue
        v = s[i] & _LEAD[w]
        j = i + 1
        while j < i + w and j < n and s[j] & 0xC0 == 0x80:
            v = v << 6 | (s[j] & 0x3F)
            j += 1
        if j < i + w:
            out += b"_"
            i = j
            continue
        r = t.rows.get(v) if v else None
        if r is None and v == 0:
            r = b"_hidden_null_"
        if r is None and v > 0x10FFFF:
            r = b"_"
        if r is None:
            r = t.default
        out += s[i:j] if r is None else r
        i = j
    return bytes(out)


_HEX = b"0123456789abcdefABCDEF"


def f_uncgi(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == 0x25 and i + 2 < len(s) and s[i + 1] in _HEX and s[i + 2] in _HEX and s[i + 1:i + 3] != b"00":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
            continue
        out.append(0x20 if c == 0x2B else c)
        i += 1
    return bytes(out)


def f_wipeup(s, remove_trailing):
    s = s.lstrip(b"-_#")
    order = b".-_" if remove_trailing else b"-_"
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] not in order:
            out.append(s[i])
            i += 1
            continue
        j = i
        while j < len(s) and s[j] in order:
            j += 1
        run = s[i:j]
        for c in order:
            if c in run:
                out.append(c)
                break
        i = j
    return bytes(out)


def f_max_length(s, limit):
    limit = limit or 256
    if len(s) <= limit:
        return s
    dot = s.rfind(b".")
    if dot < 0 or dot == len(s) - 1:
        return s[:limit]
    ext = dot
    for k in range(dot - 1, max(dot - 6, 0), -1):
        if s[k:k + 1] == b".":
            ext = k
            break
    e = s[ext:]
    if len(e) >= limit:
        return s
    return s[:limit - len(e)] + e


def f_lower(s):
    return bytes(b + 32 if 0x41 <= b <= 0x5A else b for b in s)


KIND_TABLE = {"safe": "safe", "utf_8": "unicode", "iso8859_1": "iso8859_1"}
TABLE_FN = {"safe": f_safe, "utf_8": f_utf_8, "iso8859_1": f_iso8859_1}


class Filter:
    """kind: safe utf_8 iso8859_1 uncgi wipeup max_length lower; table given by builtin/filename/search."""

    def __init__(self, kind, builtin=None, filename=None, length=None, remove_trailing=False, table=None):
        self.kind, self.builtin, self.filename = kind, builtin, filename
        self.length, self.remove_trailing, self.table = length, remove_trailing, table

    def resolve(self):
        if self.table is not None:
            return self.table
        return builtin(self.builtin or KIND_TABLE[self.kind])

    def run(self, s):
        k = self.kind
        if k in TABLE_FN:
            return TABLE_FN[k](s, self.resolve())
        if k == "uncgi":
            return f_uncgi(s)
        if k == "wipeup":
            return f_wipeup(s, self.remove_trailing)
        if k == "max_length":
            return f_max_length(s, self.length or 0)
        return f_lower(s)

    def conf(self):
        k = self.kind
        if self.builtin is not None:
            return '%s { builtin "%s"; };' % (k, self.builtin)
        if self.filename is not None:
            return '%s { filename "%s"; };' % (k, self.filename)
        if k == "wipeup" and self.remove_trailing:
            return "wipeup { remove_trailing; };"
        if k == "max_length" and self.length is not None:
            return "max_length { length %d; };" % self.length
        return k + ";"

    def listing(self):
        k = self.kind
        out = ["\tcleaner: " + ("max length" if k == "max_length" else k)]
        if k == "wipeup":
            out.append("\t\tremove trailing: " + ("yes" if self.remove_trailing else "no"))
        if k == "max_length":
            out.append("\t\tlength: %d" % (self.length or 0))
        if self.builtin is not None:
            out.append("\t\tbuiltin table: " + self.builtin)
        elif self.filename is not None:
            out.append("\t\ttranslation table: " + self.filename)
        return out


class Sequence:
    def __init__(self, name, filters):
        self.name, self.filters = name, filters
        self._memo = {}

    def run(self, s):
        r = self._memo.get(s)
        if r is None:
            r = s
            for f in self.filters:
                r = f.run(r)
            if len(self._memo) < 200000:
                self._memo[s] = r
        return r

    def conf(self):
        return 'sequence "%s" {\n%s\n};\n' % (self.name, "\n".join("\t" + f.conf() for f in self.filters))


def protected(s):
    return s in (b".", b"..")


def usable(s):
    return s != b"" and not protected(s) and b"/" not in s


def target(seq, name):
    """The name a rename run gives an entry (its own when it stays)."""
    if protected(name):
        return name
    t = seq.run(name)
    return t if usable(t) else name


def inline(seq, data):
    """Inline output for a stream."""
    out = bytearray()
    lines = data.split(b"\n")
    for i, line in enumerate(lines):
        last = i == len(lines) - 1
        if last and line == b"":
            break
        name = line.split(b"\0", 1)[0]
        out += name if protected(name) else seq.run(name)
        if not last:
            out += b"\n"
    return bytes(out)


F = Filter
SAFE_WIPE = lambda: [F("safe", builtin="safe"), F("wipeup", remove_trailing=True)]


def shipped():
    """The shipped configuration, in order."""
    iso, cp, uni = (lambda: F("iso8859_1", builtin="iso8859_1")), (lambda: F("iso8859_1", builtin="cp1252")), \
        (lambda: F("utf_8", builtin="unicode"))
    return [Sequence("default", SAFE_WIPE()),
            Sequence("iso8859_1", [iso()] + SAFE_WIPE()),
            Sequence("iso8859_1-legacy", [cp(), iso()] + SAFE_WIPE()),
            Sequence("utf_8", [uni()] + SAFE_WIPE()),
            Sequence("uncgi", [F("uncgi")] + SAFE_WIPE()),
            Sequence("lower", [F("safe", builtin="safe"), F("lower"), F("wipeup", remove_trailing=True)]),
            Sequence("iso8859_1-only", [iso()]),
            Sequence("cp1252-only", [cp()]),
            Sequence("utf_8-only", [uni()]),
            Sequence("uncgi-only", [F("uncgi")]),
            Sequence("lower-only", [F("lower")])]


SHIPPED_IGNORE = [b"{arch}"]
