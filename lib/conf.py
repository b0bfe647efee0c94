"""Configuration files: tokens, random layout, an independent recogniser, and the listing they should give."""
import re

from . import model as M

KEYWORDS = ["builtin", "filename", "ignore", "iso8859_1", "length", "lower", "max_length", "remove_trailing", "safe", "sequence",
            "uncgi", "utf_8", "wipeup"]


class Tok:
    """kind: a keyword, '{', '}', ';', 'str' (quoted), 'id', 'num' or 'bad' (an unterminated string)."""
    __slots__ = ("kind", "text")

    def __init__(self, kind, text=None):
        self.kind, self.text = kind, kind.encode() if text is None else text

    def __repr__(self):
        return self.text.decode("utf-8", "backslashreplace")


def T(*kinds):
    return [Tok(k) for k in kinds]


def string(rng, s, quoted=None):
    """A token for a string; unquoted where that is possible and the coin says so."""
    plain = re.fullmatch(rb"[a-zA-Z][a-zA-Z0-9_]*", s) and s.lower().decode() not in KEYWORDS
    if plain and (rng.random() < 0.5 if quoted is None else not quoted):
        return Tok("id", s)
    return Tok("str", b'"' + s + b'"')


def filter_tokens(rng, f):
    k = f.kind
    if f.builtin is not None:
        inner = [Tok("builtin"), string(rng, f.builtin.encode())] + T(";")
    elif f.filename is not None:
        inner = [Tok("filename"), string(rng, f.filename.encode("utf-8", "surrogateescape"))] + T(";")
    elif k == "wipeup" and f.remove_trailing:
        inner = T("remove_trailing", ";")
    elif k == "max_length" and f.length is not None:
        inner = [Tok("length"), Tok("num", b"0" * rng.choice([0, 0, 0, 2]) + b"%d" % f.length), Tok(";")]
    elif k not in ("uncgi", "lower") and rng.random() < 0.4:
        inner = []
    else:
        return T(k, ";")
    return T(k, "{") + inner + T("}", ";")


def sequence_tokens(rng, name, filters):
    out = [Tok("sequence"), string(rng, name)] + T("{")
    for f in filters:
        out += filter_tokens(rng, f)
    return out + T("}", ";")


def ignore_tokens(rng, names):
    out = T("ignore", "{")
    for n in names:
        out += [Tok("filename"), string(rng, n)] + T(";")
    return out + T("}", ";")


COMMENTS = [b"#", b"# comment", b"#sequence \"x\" { lower; };", b"# } ; \"", b"## \xc3\xa9 '", b"#ignore {", b"#\t\"unfinished", b"#;", b"# \\"]


def gap(rng, need, style):
    """Layout between two tokens; need: something has to separate them. Returns bytes."""
    if style == 0 and not need:
        return b""
    if style == 0:
        return b" "
    if style == 1:
        return rng.choice([b" ", b"\n", b"\t", b"\n\t"]) if need or rng.random() < 0.6 else b""
    out = b""
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        out += rng.choice([b" ", b"\t", b"\n", b"  ", b"\n\n", rng.choice(COMMENTS) + b"\n", b" \t \n"])
    return out or (b" " if need else b"")


def word(kind):
    return kind in KEYWORDS or kind in ("id", "num")


def render(rng, tokens, style=None, cases=True):
    """-> (text, line number of each token, line number at the end)"""
    style = rng.choice([0, 1, 1, 2, 2]) if style is None else style
    out, lines, line = bytearray(), [], 1
    prev = None
    if style == 2:
        g = gap(rng, False, 2)
        out += g
        line += g.count(b"\n")
    for t in tokens:
        if prev is not None:
            g = gap(rng, word(prev.kind) and word(t.kind), style)
            out += g
            line += g.count(b"\n")
        lines.append(line)
        text = t.text
        if t.kind in KEYWORDS and cases and rng.random() < 0.3:
            text = bytes(c ^ 32 if 0x61 <= c <= 0x7A and rng.random() < 0.5 else c for c in text)
        out += text
        line += text.count(b"\n")
        prev = t
    g = rng.choice([b"\n", b"\n", b"", b"\n\n", b" # end", b"\n# end\n"])
    out += g
    line += g.count(b"\n")
    if style and rng.random() < 0.1:
        out = out.replace(b"\n", b"\r\n")       # the line ends of other systems
    return bytes(out), lines, line


# ---- the grammar, as a recogniser: index of the first token that cannot continue a valid file ----

def offence(tokens):
    """None if the tokens are a configuration file; else the index of the offending token (len(tokens) for the end)."""
    pos = 0
    kinds = [t.kind for t in tokens] + ["END"]

    class Stop(Exception):
        pass

    def need(*ks):
        nonlocal pos
        if kinds[pos] not in ks:
            raise Stop
        pos += 1
        return kinds[pos - 1]

    def method():
        k = need("uncgi", "lower", "wipeup", "iso8859_1", "utf_8", "safe", "max_length")
        if k in ("uncgi", "lower"):
            need(";")
            return
        if need(";", "{") == ";":
            return
        if k == "wipeup":
            if need("remove_trailing", "}") != "}":
                need(";")
                need("}")
        elif k == "max_length":
            if need("length", "}") != "}":
                need("num")
                need(";")
                need("}")
        else:
            if need("filename", "builtin", "}") != "}":
                need("str", "id")
                need(";")
                need("}")
        need(";")

    try:
        while kinds[pos] != "END":
            if need("sequence", "ignore") == "sequence":
                need("str", "id")
                need("{")
                method()
                while kinds[pos] != "}":
                    method()
                need("}")
                need(";")
            else:
                need("{")
                need("filename")
                need("str", "id")
                need(";")
                while kinds[pos] != "}":
                    need("filename")
                    need("str", "id")
                    need(";")
                need("}")
                need(";")
    except Stop:
        return pos
    return None


# ---- meaning ----

class Config:
    """What a list of blocks means. Blocks: ("sequence", name, filters) and ("ignore", names)."""

    def __init__(self):
        self.sequences, self.ignore = [], []  # [name, filters, source]

    def add(self, blocks, source):
        for b in blocks:
            if b[0] == "ignore":
                self.ignore += b[1]
                continue
            for s in self.sequences:
                if s[0] == b[1]:
                    s[1], s[2] = b[2], source
                    break
            else:
                self.sequences.append([b[1], b[2], source])
        return self

    def choose(self, name):
        for s in self.sequences:
            if s[0] == (b"default" if name is None else name):
                return s
        return self.sequences[0] if name is None and self.sequences else None

    def listing(self, chosen, verbose, source=True):
        out = []
        if not verbose:
            out.append(b"available sequences:")
        for k, (name, filters, src) in enumerate(self.sequences):
            mark = b" (*)" if chosen is not None and chosen[0] == name else b""
            if not verbose:
                out.append(b"\t" + name + mark)
                continue
            if k:
                out.append(b"")
            out.append(b"sequence name: " + name + mark)
            if source:
                out.append(b"\tsource file: " + src)
            for f in filters:
                out += [x.encode("utf-8", "surrogateescape") for x in f.listing()]
        if self.ignore:
            out += [b"", b"files to ignore:"] + [b"\t" + n for n in self.ignore]
        return b"".join(x + b"\n" for x in out)

    def sequence(self, entry):
        return M.Sequence(entry[0].decode("utf-8", "surrogateescape"), entry[1])


def tokens_of(rng, blocks):
    out = []
    for b in blocks:
        out += sequence_tokens(rng, b[1], b[2]) if b[0] == "sequence" else ignore_tokens(rng, b[1])
    return out
