"""Build detox from /repo's working tree into a scratch directory (never inside /repo)."""
import hashlib, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DETOX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# as in the build: the committed generated files are used while the grammar is the pinned one
GENERATED = {
    "config_file_yacc.y": ("1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823",
                           ["config_file_yacc.c", "config_file_yacc.h"]),
    "config_file_lex.l": ("29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df",
                          ["config_file_lex.c"]),
}

CONFIG_H = """\
#define HAVE_GETOPT_LONG 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_STAT_ST_BLOCKS 1
#define HAVE_ST_BLOCKS 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "detox"
#define PACKAGE_BUGREPORT "detox.dharple at gmail.com"
#define PACKAGE_NAME "detox"
#define PACKAGE_STRING "detox 3.0.0-beta2"
#define PACKAGE_TARNAME "detox"
#define PACKAGE_URL "https://github.com/dharple/detox"
#define PACKAGE_VERSION "3.0.0-beta2"
#define STDC_HEADERS 1
#define VERSION "3.0.0-beta2"
#define YYTEXT_POINTER 1
"""

DEFAULT_SOURCES = {
    "detox": "config_file_yacc.y config_file_lex.l builtin_table.c clean_string.c clean_utf_8.c config_file.c "
             "config_file_dump.c config_file_spoof.c detox.c file.c filelist.c filter.c parse_options.c "
             "parse_table.c sequence.c table.c wrapped.c",
    "check_table": "check_table.c table.c table_dump.c wrapped.c",
    "escape_utf_8": "builtin_table.c clean_string.c clean_utf_8.c escape_utf_8.c file.c filelist.c filter.c "
                    "parse_options.c parse_table.c sequence.c table.c table_dump.c wrapped.c",
    "generate_builtin_table": "parse_table.c generate_builtin_table.c table.c wrapped.c",
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-4000:]))
    return r.stdout


def makefile_sources(target):
    """Sources of a program, from src/Makefile.am."""
    try:
        text = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    except OSError:
        text = ""
    names = DEFAULT_SOURCES[target].split()
    m = re.search(r"^%s_SOURCES\s*=\s*(.*)$" % target, text, re.M)
    if m:
        found = [w for w in m.group(1).split() if re.fullmatch(r"[\w.-]+\.(c|y|l|h)", w)]
        if found:
            names = found
    return [n for n in names if not n.endswith(".h")]


class Tree:
    """A scratch copy of the sources."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.src = os.path.join(scratch, "src")
        os.makedirs(self.src)
        regen = []
        for g, (pinned, outs) in GENERATED.items():
            p = os.path.join(REPO, "src", g)
            if os.path.exists(p) and hashlib.sha256(open(p, "rb").read()).hexdigest() != pinned:
                regen.append(g)
        skip = {o for g in regen for o in GENERATED[g][1]}
        for n in os.listdir(os.path.join(REPO, "src")):
            p = os.path.join(REPO, "src", n)
            if os.path.isfile(p) and n not in skip and n != "config.h" and re.search(r"\.(c|h|y|l|in)$", n):
                shutil.copyfile(p, os.path.join(self.src, n))
        for g in regen:
            base = g.rsplit(".", 1)[0]
            if g.endswith(".y"):
                sh(["bison", "-y", "-d", "-o", base + ".c", g], cwd=self.src)
            else:
                sh(["flex", "-i", "-o" + base + ".c", g], cwd=self.src)
        with open(os.path.join(self.src, "config.h"), "w") as f:
            f.write(CONFIG_H)

    def sources(self, target):
        return [re.sub(r"\.[yl]$", ".c", n) for n in makefile_sources(target)]

    def build(self, name, target="detox", cc="gcc", cflags=("-O1", "-g"), ldflags=(), sources=None, extra=(),
              datadir=None, sysconfdir=None, exclude=()):
        """Compile a program; returns its path. extra: additional source files (absolute)."""
        out = os.path.join(self.scratch, "build-" + name)
        os.makedirs(out, exist_ok=True)
        srcs = [os.path.join(self.src, s) for s in (sources or self.sources(target)) if s not in exclude] + list(extra)
        flags = list(cflags) + ["-w", "-I" + self.src, "-DYY_NO_INPUT", "-DYY_NO_UNPUT",
                                '-DDATADIR="%s"' % (datadir or os.path.join(self.scratch, "prefix/share")),
                                '-DSYSCONFDIR="%s"' % (sysconfdir or os.path.join(self.scratch, "prefix/etc"))]

        def one(s):
            o = os.path.join(out, os.path.basename(s) + ".o")
            sh([cc] + flags + ["-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        exe = os.path.join(out, "inline-detox" if name == "inline" else target.replace("_", "-"))
        sh([cc] + list(cflags) + objs + ["-o", exe] + list(ldflags) + ["-lm"])
        if target == "detox":
            link = os.path.join(out, "inline-detox")
            if not os.path.exists(link):
                os.symlink("detox", link)
        return exe


VARIANTS = {
    "plain": dict(cflags=("-O1", "-g")),
    "asan": dict(cflags=("-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                         "-fno-sanitize-recover=all")),
    "msan": dict(cc="clang", cflags=("-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                     "-fsanitize-memory-track-origins")),
}


def build_shim(scratch):
    out = os.path.join(scratch, "mon.so")
    sh(["gcc", "-O1", "-g", "-w", "-fno-builtin", "-shared", "-fPIC", "-o", out, os.path.join(VERIF, "shim/mon.c"), "-ldl"])
    return out
