"""C34: output that cannot be written."""
import fcntl, os, resource, selectors, signal, struct, subprocess, termios, time

from lib import model as M, trees as T
from lib.core import Check, Hang, Violation, printable
from lib.trees import Snap, rand_sequence, write_conf

STATES = ["full", "closed", "readonly", "gone", "gone-signal", "size", "size-signal", "unread", "few", "fine-file", "fine-pipe"]


class Names:
    """A small tree, made the same every time."""

    def __init__(self, rng, n):
        self.files, self.dirs = set(), {}
        for _ in range(n):
            self.files.add(T.rand_name(rng, longs=0.02))
        for _ in range(rng.choice([0, 1, 3])):
            d = T.rand_name(rng, longs=0)
            if d not in self.files:
                self.dirs[d] = {T.rand_name(rng, longs=0) for _ in range(rng.randint(0, 5))}

    def make(self, top):
        top = os.fsencode(top)
        os.mkdir(top)
        for n in sorted(self.files):
            open(os.path.join(top, n), "wb").close()
        for d in sorted(self.dirs):
            os.mkdir(os.path.join(top, d))
            for n in sorted(self.dirs[d]):
                open(os.path.join(top, d, n), "wb").close()


def tree_state(top):
    out = set()
    for root, ds, fs in os.walk(top):
        out |= {os.path.relpath(os.path.join(root, n), top) for n in ds + fs}
    return out


def go(case, argv, state, arg, inp, cwd, inline_name=False):
    """-> status, what arrived on standard output, standard error"""
    path = case.bins["plain"]
    if inline_name:
        path = os.path.join(os.path.dirname(path), "inline-detox")
    e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(case.scratch, "nohome"), "LC_ALL": "C"}
    spool = os.path.join(case.dir(), "out")
    ends = []
    if state == "full":
        out = os.open("/dev/full", os.O_WRONLY)
    elif state == "readonly":
        out = os.open("/dev/null", os.O_RDONLY)
    elif state in ("size", "size-signal", "fine-file", "closed"):
        out = os.open(spool, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    else:
        ends = list(os.pipe())
        out = ends[1]
        if state == "unread":
            fcntl.fcntl(out, 1031, 4096)        # F_SETPIPE_SZ
            os.set_blocking(out, False)

    def pre():
        signal.signal(signal.SIGPIPE, signal.SIG_DFL if state == "gone-signal" else signal.SIG_IGN)
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if state == "size-signal" else signal.SIG_IGN)
        if state.startswith("size"):
            resource.setrlimit(resource.RLIMIT_FSIZE, (arg, arg))
        elif state == "closed":
            os.close(1)
        elif state == "few":
            resource.setrlimit(resource.RLIMIT_NOFILE, (arg, arg))

    case.count("executions")
    errf = os.path.join(case.dir(), "err")
    with open(inp, "rb") as fin, open(errf, "wb") as ferr:
        if state.startswith("size"):
            ferr.close()                # the limit is for every file: standard error goes to a pipe
            er, ew = os.pipe()
        else:
            er = ew = None
        p = subprocess.Popen([path] + argv, cwd=cwd, env=e, stdin=fin, stdout=out, stderr=ew if ew is not None else ferr, preexec_fn=pre)
        if ew is not None:
            os.close(ew)
    os.close(out)
    got, err = b"", b""
    end = time.monotonic() + case.timeout
    try:
        if state == "gone" or state == "gone-signal":
            while len(got) < arg:
                b = os.read(ends[0], arg - len(got))
                if not b:
                    break
                got += b
            os.close(ends[0])
            ends = []
        elif state in ("few", "fine-pipe"):
            with selectors.DefaultSelector() as sel:
                sel.register(ends[0], selectors.EVENT_READ)
                while True:
                    if not sel.select(max(0, end - time.monotonic())):
                        raise Hang("no end of output: %s" % printable(argv))
                    b = os.read(ends[0], arg if state == "fine-pipe" else 65536)
                    if not b:
                        break
                    got += b
        if er is not None:
            err = os.fdopen(er, "rb").read()
        try:
            rc = p.wait(timeout=max(0.1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            raise Hang("no end: %s" % printable(argv))
        if state == "unread":
            while True:
                b = os.read(ends[0], 65536)
                if not b:
                    break
                got += b
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        if ends:
            os.close(ends[0])
    if state.startswith("size") or state == "fine-file":
        got = open(spool, "rb").read()
    if er is None:
        err = open(errf, "rb").read()
    return rc, got, err


def lines(b):
    return sorted(b.split(b"\n"))


def one(case):
    rng = case.rng
    d = case.dir()
    state = STATES[case.index % len(STATES)]
    mode = ["inline", "inline-file", "list", "dry", "verbose", "quiet", "inline", "dry", "verbose", "inline-file"][case.index // len(STATES) % 10]
    seq = rand_sequence(rng, case)
    conf = write_conf(case, seq, rng.choice([(), [b"{arch}"] * 3, [b"i%d" % k for k in range(1500)]]) if mode == "list" else ())
    opts = ["-f", conf, "-s", "s"]
    work = os.path.join(d, "w0")
    inp = os.path.join(d, "in")
    names = None
    inline_name = False
    n = rng.choice([1, 3, 40, 300, 3000]) if mode.startswith("inline") else rng.choice([1, 5, 60, 250])
    open(inp, "wb").write(b"")
    if mode.startswith("inline"):
        os.mkdir(work)
        data = b"\n".join(T.rand_name(rng) for _ in range(n)) + rng.choice([b"", b"\n"])
        if rng.random() < 0.2:
            data += b"x y" * rng.choice([2000, 70000]) + b"\n"
        open(inp, "wb").write(data)
        inline_name = rng.random() < 0.3
        if not inline_name:
            opts.insert(0, "--inline")
        if mode == "inline-file":
            opts += [inp] * rng.choice([1, 1, 2])
            open(os.path.join(d, "none"), "wb").close()
            inp = os.path.join(d, "none")
    elif mode == "list":
        os.mkdir(work)
        opts += rng.choice([["-L"], ["-L", "-v"]])
    else:
        names = Names(rng, n)
        names.make(work)
        opts = rng.choice([["-r"], []]) + {"dry": ["-n"], "verbose": ["-v"], "quiet": []}[mode] + opts + ["."]
    rc, want, werr = go(case, opts, "fine-file", None, inp, work, inline_name)
    if rc != 0:
        raise Violation("status", "with nothing in the way the status is %d: %s" % (rc, printable(werr[:300])), argv=opts)
    ended = None
    if names:
        ended = tree_state(work)
        work = os.path.join(d, "w1")
        names.make(work)
    if state in ("gone", "gone-signal"):
        arg = rng.choice([0, 0, 1, rng.randint(0, len(want)), max(0, len(want) - 1), 4095, 4096, 4097])
    elif state in ("size", "size-signal"):
        arg = rng.choice([0, 1, rng.randint(0, len(want)), max(0, len(want) - 1), len(want), len(want) + 1, 4095, 4096, 4097])
    elif state == "few":
        arg = rng.choice([4, 4, 5, 5, 6, 7, 8])
    elif state == "fine-pipe":
        arg = rng.choice([1, 7, 4096, 65536]) if len(want) < 20000 else 65536
    else:
        arg = None
    rc, got, err = go(case, opts, state, arg, inp, work, inline_name)
    info = dict(argv=opts, inline_detox=inline_name, stdout_is=(state, arg), status=rc, stderr=err[:600], expected_bytes=len(want), written=len(got))
    after = tree_state(work) if names else None
    same = lines(got) == lines(want) if names else got == want
    fine = state.startswith("fine")
    if state in ("full", "readonly", "closed") and not want:
        same = True
    if state.startswith("gone") and rc == 0 and arg >= len(want):
        same = True
    if rc == 0 or fine:
        if rc != 0:
            raise Violation("status", "ended with %d although all could be written: %s" % (rc, printable(err[:300])), **info)
        # a reader that leaves may do so after the last byte was written
        if not same and not state.startswith("gone"):
            raise Violation("lost", "%s, standard output %s: %d of %d bytes were written and the status is 0" % (
                mode, state, len(got), len(want)), **info)
        if state.startswith("gone") and len(want) > arg + (1 << 17):
            raise Violation("lost", "%s: the reader left after %d of %d bytes and the status is 0" % (mode, arg, len(want)), **info)
    elif rc < 0:
        if -rc not in ({"gone-signal": [signal.SIGPIPE], "size-signal": [signal.SIGXFSZ]}.get(state, [])):
            raise Violation("crash", "%s, standard output %s: signal %d" % (mode, state, -rc), **info)
    else:
        if len(err) <= len(werr) and not err.strip():
            raise Violation("silent", "%s, standard output %s: status %d without a message" % (mode, state, rc), **info)
        if len(lines(err)) <= len(lines(werr)) and state not in ("few",):
            raise Violation("silent", "%s, standard output %s: status %d without a message about it" % (mode, state, rc), **info)
    if names and rc >= 0 and (rc == 0 or state != "few") and after != ended:
        raise Violation("renames", "%s, standard output %s: other renames: %s instead of %s" % (
            mode, state, printable(sorted(after - ended)[:4]), printable(sorted(ended - after)[:4])), **info)
    case.seen("situations", (state, mode, rc))
    case.count("failures_reported" if rc else "complete")
    case.note((state, mode, arg, want[:3000], tuple(opts[:2])), dict(standard_output=state, mode=mode, status=rc, bytes=len(want)))


def starved(case):
    """A reader that is behind for a while: output fails in the middle and works again at the end."""
    rng = case.rng
    seq = rand_sequence(rng, case)
    conf = write_conf(case, seq)
    chunks = []
    for k in range(rng.choice([2, 2, 3, 4])):
        n = rng.choice([1, 2, 30, 400, 1500])
        chunks.append(b"".join(T.rand_name(rng) + b"\n" for _ in range(n)))
    want = M.inline(seq, b"".join(chunks))
    out_r, out_w = os.pipe()
    fcntl.fcntl(out_w, 1031, 4096)
    os.set_blocking(out_w, False)
    os.set_blocking(out_r, False)
    e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(case.scratch, "nohome"), "LC_ALL": "C"}
    errf = os.path.join(case.dir(), "err")
    case.count("executions")
    with open(errf, "wb") as ferr:
        p = subprocess.Popen([case.bins["plain"], "--inline", "-f", conf, "-s", "s"], env=e, cwd=case.dir(), stdin=subprocess.PIPE,
                             stdout=out_w, stderr=ferr)
    os.close(out_w)
    got, drained = b"", []

    def drain():
        n = 0
        while True:
            try:
                b = os.read(out_r, 65536)
            except BlockingIOError:
                return n
            if not b:
                return n
            got_parts.append(b)
            n += len(b)
    got_parts = []
    try:
        fd = p.stdin.fileno()
        for k, c in enumerate(chunks):
            try:
                at = 0
                while at < len(c):
                    at += os.write(fd, c[at:at + 65536])
            except BrokenPipeError:
                break
            end = time.monotonic() + 2
            while time.monotonic() < end and p.poll() is None:      # until all was taken
                left = struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"    "))[0]
                if not left:
                    break
                time.sleep(0.0005)
            time.sleep(0.003)
            if k < len(chunks) - 1 and rng.random() < 0.8:
                drained.append(drain())
        p.stdin.close()
        try:
            rc = p.wait(timeout=case.timeout)
        except subprocess.TimeoutExpired:
            raise Hang("no end with a reader that is behind")
        drain()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        os.close(out_r)
    got, err = b"".join(got_parts), open(errf, "rb").read()
    info = dict(sequence=seq.conf(), status=rc, stderr=err[:600], expected_bytes=len(want), written=len(got), drained=drained)
    if rc < 0:
        raise Violation("crash", "ended by signal %d" % -rc, **info)
    if rc == 0 and got != want:
        raise Violation("lost", "the reader was behind for a while: %d of %d bytes were written and the status is 0" % (len(got), len(want)), **info)
    if rc and not err.strip():
        raise Violation("silent", "status %d without a message" % rc, **info)
    case.seen("situations", ("starved", "inline", rc))
    case.count("failures_reported" if rc else "complete")
    case.note(("starved", want[:3000], len(drained)), dict(status=rc, bytes=len(want), written=len(got)))


class C34(Check):
    prop = "C34"
    technique = "runtime monitoring: runs with failing outputs compared with undisturbed ones"
    rule = "distinct runs, by mode, state of the output and what is written"
    parts = [("outputs", one, 1320, 16500), ("starved", starved, 160, 3000)]


CHECKS = [C34]
