"""Check framework: cases spread over unprivileged workers, three-valued verdicts, evidence."""
import fcntl, hashlib, json, mmap, os, pickle, random, re, selectors, shutil, signal, stat, struct, subprocess, sys, tempfile, time, traceback

from . import build as B

VERIF = B.VERIF
NOBODY = 65534
WORKERS = 8
T_RUN, T_RETRY = 30, 90
OUT_LIMIT = 64 << 20


class Violation(Exception):
    """The property is refuted. key identifies the kind of failure for the known-findings file."""

    def __init__(self, key, what, **detail):
        super().__init__("%s: %s" % (key, what))
        self.key, self.what, self.detail = key, what, detail


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass

sys.setrecursionlimit(20000)      # trees as deep as a path can be are walked


def printable(x):
    if isinstance(x, bytes):
        return x.decode("utf-8", "backslashreplace") if len(x) < 3000 else \
            x[:3000].decode("utf-8", "backslashreplace") + "...(%d bytes)" % len(x)
    if isinstance(x, dict):
        return {str(printable(k)): printable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        r = [printable(v) for v in list(x)[:200]]
        return r
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return str(x)


class Result:
    __slots__ = ("rc", "out", "err", "events", "argv")

    def __init__(self, rc, out, err, events, argv):
        self.rc, self.out, self.err, self.events, self.argv = rc, out, err, events, argv

    @property
    def signal(self):
        return -self.rc if self.rc < 0 else 0


class Event:
    __slots__ = ("name", "a", "b", "ret", "err")

    def __init__(self, line):
        p = line.split(b"|")
        self.name = p[0].decode()
        self.a, self.b = bytes.fromhex(p[1].decode()), bytes.fromhex(p[2].decode())
        self.ret, self.err = int(p[3]), int(p[4])

    def __repr__(self):
        return "%s(%s,%s)=%d/%d" % (self.name, printable(self.a), printable(self.b), self.ret, self.err)


class Case:
    """One case: deterministic from (seed, property, part, index)."""

    def __init__(self, w, part, index, timeout):
        self.w, self.part, self.index, self.timeout = w, part, index, timeout
        self.rng = random.Random("%d:%s:%s:%d" % (w.seed, w.prop, part, index))
        self.bins = w.bins
        self.tier = w.tier
        self.scratch = w.scratch
        self._dir = None
        self.nontrivial = []
        self.counts = {}
        self.evals = 0
        self.sets = {}
        self.sample = None
        self.log = []

    def dir(self, fs=None):
        """A fresh directory of this case; alternates between the file systems available."""
        if self._dir is None:
            bases = self.w.dirs
            base = bases[(self.index if fs is None else fs) % len(bases)]
            self._dir = tempfile.mkdtemp(prefix="c", dir=base)
            os.chmod(self._dir, 0o755)
        return self._dir

    def fresh(self):
        self._drop()
        return self.dir()

    def _drop(self):
        if self._dir:
            force_rmtree(self._dir)
            self._dir = None

    def note(self, key, sample=None):
        """A case (or part of one) that was evaluated and is non-trivial; key makes it distinct."""
        if not isinstance(key, bytes):
            key = repr(key).encode("utf-8", "surrogateescape")
        self.nontrivial.append(hashlib.blake2b(key, digest_size=8).digest())
        if sample is not None and self.sample is None:
            self.sample = sample

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, value):
        self.sets.setdefault(name, set()).add(value)

    def run(self, argv, cwd=None, env=None, stdin=b"", mon=None, exe="plain", timeout=None, feeder=None,
            limits=None, log=True, inline_name=False, out_file=None):
        """Run detox. mon: dict of MON_* settings -> preload the monitor and return its events."""
        path = self.bins[exe]
        if inline_name:
            path = os.path.join(os.path.dirname(path), "inline-detox")
        e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(self.scratch, "nohome"), "LC_ALL": "C"}
        if exe.endswith("asan"):
            e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        elif exe.endswith("msan"):
            e["MSAN_OPTIONS"] = "exitcode=99"
        if env:
            for k, v in env.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        logp = None
        if mon is not None:
            e["LD_PRELOAD"] = self.bins["mon"]
            logp = os.path.join(self.dir() if cwd is None else self.w.tmp, "mon.log")
            logp = os.path.join(self.w.tmp, "mon.log")
            if os.path.exists(logp):
                os.unlink(logp)
            e["MON_LOG"] = logp
            e.update(mon)
        argv = [path] + list(argv)
        pre = None
        if limits:
            import resource

            def pre():
                for k, v in limits.items():
                    resource.setrlimit(getattr(resource, k), (v, v))
        timeout = timeout or self.timeout
        if log:
            self.log.append(dict(argv=argv[1:], exe=exe, cwd=cwd, env=env, mon=mon,
                                 stdin=stdin if stdin is not None and len(stdin) < 2000 else None))
        self.count("executions")
        try:
            if feeder is not None:
                p = subprocess.Popen(argv, cwd=cwd or self.w.tmp, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, preexec_fn=pre)
                import threading
                t = threading.Thread(target=feeder, args=(p.stdin,))
                t.start()
                p.stdin_saved, p.stdin = p.stdin, None
                out, err = p.communicate(timeout=timeout)
                t.join(timeout)
                rc = p.returncode
            else:
                p = subprocess.Popen(argv, cwd=cwd or self.w.tmp, env=e,
                                     stdin=subprocess.PIPE if stdin is not None else None,
                                     stdout=out_file or subprocess.PIPE,
                                     stderr=subprocess.PIPE, preexec_fn=pre, close_fds=False)
                out, err = converse(p, stdin, timeout)
                rc = p.returncode
        except Runaway as e:
            p.kill()
            p.wait()
            raise Violation("runaway", "more than %d MB of output: %s" % (OUT_LIMIT >> 20, printable(argv)), start=e.args[0])
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Hang("no end within %d s: %s" % (timeout, printable(argv)))
        events = []
        self.mon_stats = {}
        if logp and os.path.exists(logp):
            for line in open(logp, "rb").read().split(b"\n"):
                if line.startswith(b"stats "):
                    self.mon_stats = {k.decode(): int(v) for k, v in (x.split(b"=") for x in line.split()[1:])}
                elif line:
                    events.append(Event(line))
            self.count("monitored_calls", len(events))
        return Result(rc, out if out is not None else b"", err, events, argv)


def converse(p, data, timeout):
    """Like communicate(), with an end to the output that is kept."""
    end = time.monotonic() + timeout
    out, total = {}, 0
    with selectors.DefaultSelector() as sel:
        for f in (p.stdout, p.stderr):
            if f is not None:
                sel.register(f, selectors.EVENT_READ)
                out[f] = bytearray()
        if p.stdin is not None:
            if data:
                os.set_blocking(p.stdin.fileno(), False)
                sel.register(p.stdin, selectors.EVENT_WRITE)
                data = memoryview(data)
            else:
                p.stdin.close()
        while sel.get_map():
            left = end - time.monotonic()
            if left <= 0:
                raise subprocess.TimeoutExpired(p.args, timeout)
            for key, _ in sel.select(left):
                f = key.fileobj
                if f is p.stdin:
                    try:
                        data = data[os.write(f.fileno(), data[:65536]):]
                    except BlockingIOError:
                        continue
                    except BrokenPipeError:
                        data = b""
                    if not len(data):
                        sel.unregister(f)
                        try:
                            f.close()
                        except OSError:
                            pass
                else:
                    got = os.read(f.fileno(), 65536)
                    if not got:
                        sel.unregister(f)
                        f.close()
                        continue
                    out[f] += got
                    total += len(got)
                    if total > OUT_LIMIT:
                        raise Runaway(bytes(out[f][:500]))
    p.wait(timeout=max(0.1, end - time.monotonic()))
    return [None if f is None else bytes(out[f]) for f in (p.stdout, p.stderr)]


class Runaway(Exception):
    pass


def force_rmtree(path):
    """Remove a scratch directory even where the case took permissions away."""
    for root, ds, fs in os.walk(path):
        for d in ds:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    # by path, from below: a tree may be deeper than the descriptors that may be open
    for root, ds, fs in os.walk(path, topdown=False):
        for n in fs + ds:
            p = os.path.join(root, n)
            try:
                if n in ds and not os.path.islink(p):
                    os.rmdir(p)
                else:
                    os.unlink(p)
            except OSError:
                pass
    shutil.rmtree(path, ignore_errors=True)
    if os.path.lexists(path):
        shutil.rmtree(path, ignore_errors=False)


class Worker:
    def __init__(self, check, wid):
        self.prop, self.seed, self.tier = check.prop, check.seed, check.tier
        self.bins, self.scratch, self.check = check.bins, check.scratch, check
        self.dirs = [os.path.join(d, "w%d" % wid) for d in check.areas]
        self.tmp = os.path.join(check.areas[0], "t%d" % wid)
        self.shared = check.shared


def run_case(w, part, fn, index):
    """-> (case, violation or None); a time-out is retried once with more time."""
    for attempt, timeout in enumerate((T_RUN, T_RETRY, T_RETRY)):
        case = Case(w, part, index, timeout)
        try:
            try:
                fn(case)
                return case, None
            finally:
                case._drop()
        except (Hang, subprocess.TimeoutExpired) as h:
            if attempt == 2:
                return case, Violation("hang", str(h), hang=True)
        except Violation as v:
            return case, v


class Check:
    """A property's check. Subclass: set prop, level, rule, parts; variants to build; setup()."""
    prop = None
    level = "exploration"
    technique = "runtime monitoring"
    rule = ""
    variants = ("plain",)
    need_mon = False
    assumptions = []
    # (name, function, quick count before scaling, thorough count)
    parts = []
    scale = 2.5

    def __init__(self):
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.bins, self.shared = {}, {}
        self.areas = []

    @classmethod
    def level_note(cls):
        """What the verdict rests on, for the manifest."""
        return "%s %s" % (cls.note.strip() or
                          "No violation in the executions observed (seeded generation, counts in the evidence file).",
                          "Trusted: the reference model and oracle in lib/, the kernel's file system, the compiler.")

    note = ""

    # -- to override
    def setup(self):
        pass

    def extra(self, agg):
        """Additional coverage facts; may raise HarnessError when nothing was observed."""
        return {}

    # -- machinery
    def prepare(self):
        self.scratch = tempfile.mkdtemp(prefix="detoxmon-", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.areas = [os.path.join(self.scratch, "run")]
        self.shm = None
        try:
            self.shm = tempfile.mkdtemp(prefix="detoxmon-", dir="/dev/shm")
            os.chmod(self.shm, 0o755)
            self.areas.append(self.shm)
        except OSError:
            pass
        os.makedirs(self.areas[0])
        os.chmod(self.areas[0], 0o777)
        for a in self.areas:
            for i in range(WORKERS):
                for n in ("w", "t"):
                    d = os.path.join(a, "%s%d" % (n, i))
                    os.makedirs(d)
                    if os.getuid() == 0:
                        os.chown(d, NOBODY, NOBODY)
        self.tree = B.Tree(self.scratch)
        for v in self.variants:
            self.bins[v] = self.tree.build(v, **B.VARIANTS[v])
        if self.need_mon:
            self.bins["mon"] = B.build_shim(self.scratch)
        self.setup()

    def cleanup(self):
        for d in (getattr(self, "scratch", None), getattr(self, "shm", None)):
            if d and os.path.basename(d).startswith("detoxmon-") and os.path.lexists(d):
                force_rmtree(d)

    def run_worker(self, wid, jobs):
        agg = Agg()
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        os.umask(0o022)
        w = Worker(self, wid)
        os.chdir(w.tmp)
        fns = {p[0]: p[1] for p in self.parts}
        stop = os.path.join(self.areas[0], "stop")
        try:
            for part, index in jobs:
                if os.path.exists(stop):
                    break       # another worker has its violations already
                case, v = run_case(w, part, fns[part], index)
                agg.add(case, part)
                if v is not None:
                    agg.violations.append(dict(part=part, index=index, key=v.key, what=v.what,
                                               detail=printable(v.detail), runs=printable(case.log[-3:])))
                    if len(agg.violations) >= 3 or v.key in ("hang", "runaway"):
                        open(stop, "w").close()
                        break
        except BaseException:
            agg.error = traceback.format_exc()
        return agg

    def execute(self, only=None):
        jobs = []
        if only:
            jobs = [only]
        else:
            for name, fn, q, t in self.parts:
                n = min(t, int(q * self.scale)) if self.tier == "quick" else t
                jobs += [(name, i) for i in range(n)]
        # each worker takes the next case; what a case does depends on its number alone
        taken = mmap.mmap(-1, 8)
        lock = os.open(os.path.join(self.scratch, "lock"), os.O_RDWR | os.O_CREAT, 0o600)

        def take():
            while True:
                fcntl.lockf(lock, fcntl.LOCK_EX)
                k = struct.unpack("q", taken[:8])[0]
                taken[:8] = struct.pack("q", k + 1)
                fcntl.lockf(lock, fcntl.LOCK_UN)
                if k >= len(jobs):
                    return
                yield jobs[k]
        pids = []
        out = os.path.join(self.scratch, "results")
        os.makedirs(out)
        sys.stdout.flush()
        for wid in range(WORKERS):
            if wid >= len(jobs):
                continue
            f = os.open(os.path.join(out, "r%d" % wid), os.O_WRONLY | os.O_CREAT, 0o600)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    agg = self.run_worker(wid, take())
                    os.write_all(f, pickle.dumps(agg)) if hasattr(os, "write_all") else _write_all(f, pickle.dumps(agg))
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(f)
            pids.append((pid, wid))
        total = Agg()
        for pid, wid in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                raise HarnessError("worker %d ended with status %d" % (wid, st))
            total.merge(pickle.loads(open(os.path.join(out, "r%d" % wid), "rb").read()))
        if total.error:
            raise HarnessError(total.error)
        return total

    def main(self, only=None):
        start = time.time()
        try:
            try:
                self.prepare()
                agg = self.execute(only)
                facts = self.extra(agg)
            finally:
                self.cleanup()
        except (HarnessError, B.BuildError) as e:
            print("ERROR property=%s: %s" % (self.prop, e))
            return 2
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s" % self.prop)
            return 2
        return self.report(agg, facts, time.time() - start, only)

    def report(self, agg, facts, wall, only):
        known = load_known(self.prop)
        fresh, listed = [], {}
        for v in agg.violations:
            if v["key"] in known:
                listed[v["key"]] = known[v["key"]]
            else:
                fresh.append(v)
        for key in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
        cov = dict(evaluations=agg.evals, distinct_nontrivial=len(agg.nontrivial), rule=self.rule,
                   samples=agg.samples[:6], parts=agg.parts, **{k: v for k, v in sorted(agg.counts.items())})
        for k, v in agg.sets.items():
            cov["distinct_" + k] = len(v)
        cov.update(facts)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        if not only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for v in sorted(fresh, key=lambda v: v["key"] in ("hang", "runaway"))[:3]:
                h = hashlib.blake2b(repr((v["part"], v["index"], self.seed)).encode(), digest_size=4).hexdigest()
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **v), f, indent=1)
                print("%s: part %s case %d: %s" % (v["key"], v["part"], v["index"], v["what"][:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if not agg.nontrivial and not agg.violations:
            print("ERROR property=%s: nothing was observed" % self.prop)
            return 2
        print("OK property=%s evaluations=%d distinct=%d executions=%d wall=%.1fs" % (
            self.prop, agg.evals, len(agg.nontrivial), agg.counts.get("executions", 0), wall))
        return 0


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


class Agg:
    def __init__(self):
        self.evals, self.nontrivial, self.counts, self.sets = 0, set(), {}, {}
        self.samples, self.parts, self.violations, self.error = [], {}, [], None

    def add(self, case, part):
        self.evals += max(1, case.evals)
        self.nontrivial.update(case.nontrivial)
        for k, v in case.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in case.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.parts[part] = self.parts.get(part, 0) + 1
        if case.sample is not None and len(self.samples) < 3:
            self.samples.append(printable(case.sample))

    def merge(self, o):
        self.evals += o.evals
        self.nontrivial |= o.nontrivial
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in o.parts.items():
            self.parts[k] = self.parts.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:6]
        self.violations += o.violations
        self.error = self.error or o.error


def load_known(prop):
    """key -> text of the findings recorded (not fixed) for a property."""
    out = {}
    path = os.path.join(VERIF, "known-findings")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
