"""C35: the processor time of a run grows in proportion to what it is given."""
import os, resource, subprocess, time

from lib import model as M, trees as T
from lib.core import Check, Hang, Violation, printable
from lib.trees import rand_sequence, write_conf

F = M.Filter
SLACK = 3           # how much more than in proportion
FLOOR = 0.6         # seconds that are always allowed


def spend(case, argv, stdin=None, cwd=None, limit=60.0):
    """Processor time of one run (or None if it needs more than the limit)."""
    e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(case.scratch, "nohome"), "LC_ALL": "C"}
    case.count("executions")
    n = int(limit) + 1

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (n, n + 1))
    with open(stdin or "/dev/null", "rb") as fin, open(os.path.join(case.dir(), "err"), "wb") as ferr:
        p = subprocess.Popen([case.bins["plain"]] + argv, env=e, cwd=cwd or case.dir(), stdin=fin, stdout=subprocess.DEVNULL, stderr=ferr,
                             preexec_fn=pre)
        end = time.monotonic() + 20 * n + case.timeout
        while True:
            pid, status, use = os.wait4(p.pid, os.WNOHANG)
            if pid:
                p.returncode = 0
                break
            if time.monotonic() > end:
                p.kill()
                p.wait()
                raise Hang("no end within %d s" % (20 * n))
            time.sleep(0.002)
    t = use.ru_utime + use.ru_stime
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == 24 or os.WTERMSIG(status) == 9 and t >= n - 0.5:
            return None
        raise Violation("crash", "ended by signal %d" % os.WTERMSIG(status), argv=argv[:8])
    return t


def proportion(case, what, small, large, factor, **detail):
    """small, large: functions (limit) -> time; the large job has factor times the work of the small one."""
    a = small(20.0)
    if a is None:
        raise Violation("slow", "%s: more than 20 s of processor time for the small job" % what, **detail)
    bound = lambda: max(FLOOR, SLACK * factor * a)
    b = large(bound())
    for _ in range(2):
        if b is not None and b <= bound():
            break
        # again, to be sure
        a = max(a, small(20.0) or 20.0)
        again = large(bound())
        b = again if b is None else b if again is None else min(b, again)
    if b is None or b > bound():
        raise Violation("growth", "%s: %.3f s, and %s for %g times as much" % (what, a, "more than %.1f s" % bound() if b is None else "%.3f s" % b, factor),
                        **detail)
    case.count("milliseconds", round(1000 * (a + b)))
    case.count("compared")
    return a, b


UNITS = [b"a", b"_", b".", b"-", b"%", b"%41", b"%2541", b"\xff", b"\xc3\xa9", b"&", b"a.", b"-_", b"A", b" ", b"#", b"\xe2\x82", b"\x80",
         b"\xe4\xb8\xad", b"+", b"._-", b"a&b", b"%2", b"\xf0\x9f\x98\x80", b"\xfc\x80", b"x y.", b".a_", b"--.", b"\xc0\x80", b"(1)", b"e\xcc\x81"]


def length(case):
    """One line, and one a few times longer."""
    rng = case.rng
    kinds = [[F("safe", builtin="safe")], [F("utf_8", builtin="unicode")], [F("iso8859_1", builtin="iso8859_1")], [F("uncgi")], [F("wipeup")],
             [F("wipeup", remove_trailing=True)], [F("lower")], [F("max_length", length=rng.choice([5, 255, 5000, 70000, 10 ** 6]))],
             rng.choice(M.shipped()).filters, rand_sequence(rng, case, tables=False, shipped=0).filters]
    seq = M.Sequence("s", kinds[case.index % len(kinds)])
    conf = write_conf(case, seq)
    r = rng.random()
    if r < 0.55:
        unit = UNITS[case.index // len(kinds) % len(UNITS)]
    elif r < 0.8:
        unit = b"".join(rng.choice(UNITS) for _ in range(rng.randint(2, 12)))
    else:
        unit = T.rand_name(rng)
    head, tail = (rng.choice([b"", b"", b"x", b".", b"a.b", b"%", b"-"]) for _ in range(2))
    factor = 8
    n1 = (1 << 17) if case.tier != "thorough" else rng.choice([1 << 17, 1 << 19])
    files = []
    extension = rng.random() < 0.15
    for n in (n1, n1 * factor):
        p = os.path.join(case.dir(), "in%d" % n)
        with open(p, "wb") as f:
            if extension:
                f.write(head + unit * (n // len(unit) // 2) + b"." + b"e" * (n // 2) + tail + b"\n")
            else:
                f.write(head + unit * (n // len(unit)) + tail + b"\n")
        files.append(p)
    t = proportion(case, "a line of %d characters (%s...)" % (n1, printable(head + unit[:20])),
                   lambda lim: spend(case, ["--inline", "-f", conf, "-s", "s"], files[0], limit=lim),
                   lambda lim: spend(case, ["--inline", "-f", conf, "-s", "s"], files[1], limit=lim), factor, sequence=seq.conf(), unit=unit)
    case.note((seq.conf(), unit, head, tail, n1), dict(sequence=seq.conf(), unit=printable(unit), seconds=[round(x, 4) for x in t]))


def amount(case):
    """A few lines, entries or arguments, and many more."""
    rng = case.rng
    shape = ["lines", "entries", "arguments", "equal-lines", "renamed", "directories", "refused", "inputs", "missing"][case.index % 9]
    seq = rng.choice([M.Sequence("s", [F("lower")]), M.Sequence("s", M.SAFE_WIPE()), M.Sequence("s", [F("uncgi"), F("wipeup")])])
    conf = write_conf(case, seq, [])
    base = ["-f", conf, "-s", "s"]
    deep = case.tier == "thorough"
    n1, factor = {"lines": (1 << 14, 16), "equal-lines": (1 << 14, 16), "entries": (4000, 16), "renamed": (3000, 16), "directories": (1500, 12),
                  "refused": (2000, 12), "arguments": (3000, 20), "inputs": (2000, 16), "missing": (3000, 20)}[shape]
    if deep and shape in ("lines", "equal-lines", "entries"):
        n1 *= 3
    option = rng.choice(["-r", "-n", "-v"])
    times = [0]

    def make(n):
        d = os.path.join(os.fsencode(case.dir()), b"w%d" % times[0])
        times[0] += 1
        os.mkdir(d)
        entry = lambda x: os.close(os.open(os.path.join(d, x), os.O_CREAT | os.O_WRONLY))
        argv, stdin = ["-r"] + base + ["."], None
        if shape in ("lines", "equal-lines"):
            argv, stdin = ["--inline"] + base, os.path.join(d, b"in")
            with open(stdin, "wb") as f:
                if shape == "lines":
                    f.write(b"".join(b"Line (%d) %%41\n" % k for k in range(n)))
                else:
                    f.write(b"the Same %41\n" * n)
        elif shape == "entries":
            for k in range(n):
                entry(b"e%d" % k)
        elif shape == "renamed":
            for k in range(n):
                entry(b"E (%d)%%41" % k)
            argv[0] = option
        elif shape == "directories":
            for k in range(n):
                os.mkdir(os.path.join(d, b"D %d" % k))
        elif shape == "refused":
            for k in range(n):
                entry(b"r%d A " % k)
                entry(seq.run(b"r%d A " % k))
        elif shape == "arguments":
            for k in range(n):
                entry(b"a%d" % k)
            argv = base + [b"a%d" % k for k in range(n)]
        elif shape == "missing":
            argv = base + [b"m%d" % k for k in range(n)]
        else:
            with open(os.path.join(d, b"in"), "wb") as f:
                f.write(b"A b\n")
            argv = ["--inline"] + base + ["in"] * n
        return argv, stdin, d

    def job(n):
        made = []

        def f(lim):
            # (a run that renames needs its directory as it was)
            if not made or shape in ("renamed", "directories"):
                made[:] = make(n)
            return spend(case, made[0], made[1], cwd=made[2], limit=lim)
        return f
    small, large = job(n1), job(n1 * factor)
    t = proportion(case, "%d %s" % (n1, shape), small, large, factor, sequence=seq.conf())
    case.seen("shapes", shape)
    case.note((shape, seq.conf(), n1, factor, case.index), dict(shape=shape, number=n1 * factor, seconds=[round(x, 4) for x in t]))


class C35(Check):
    prop = "C35"
    scale = 1
    technique = "runtime monitoring: processor time of paired runs of different size"
    rule = "distinct pairs of runs, of which one has several times the work of the other"
    parts = [("length", length, 600, 4800), ("amount", amount, 45, 180)]


CHECKS = [C35]
