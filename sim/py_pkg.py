"""Worker for the Python package's own code (extra/python/src/neo): the real interpreter runs it, one thread at a time,
switched at seeded lines; the compiled module underneath is a model whose calls can fail. Same protocol as the C++ workers."""
import collections, enum, hashlib, importlib, json, random, sys, threading, time, types

sys.dont_write_bytecode = True
import numpy as np

REPO = sys.argv[1]
SRC = REPO + "/extra/python/src"
sys.path.insert(0, SRC)
RealLock, RealThread = threading.Lock, threading.Thread


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Norm(enum.Enum):
    backward = 0
    ortho = 1
    forward = 2


class Mode(enum.Enum):
    full = 0
    valid = 1
    same = 2


class Method(enum.Enum):
    automatic = 0
    direct = 1
    fft = 2
    ola = 3
    ols = 4
    upola = 5
    upols = 6


# ---------------------------------------------------------------------------------- one run
class Run:
    def __init__(self, text):
        self.ops, self.faults, self.pres, self.seed, self.prop = [], {}, [], 0, "C17"
        for l in text.splitlines():
            w = l.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "seed":
                self.seed = int(w[1])
            elif w[0] == "prop":
                self.prop = w[1]
            elif w[0] == "op":
                self.ops.append((int(w[1]), int(w[2]), w[3], [int(x) for x in w[4:]]))
            elif w[0] == "fault":
                self.faults[int(w[1])] = w[2]
            elif w[0] == "pre":
                self.pres.append((int(w[1]), int(w[2])))
        self.stats = collections.Counter()
        self.hist, self.schedh = hashlib.sha256(), hashlib.sha256()
        self.switches = self.points = 0
        self.unknown, self.bad = False, None
        self.lines = set()
        self.tls = threading.local()

    # -------- scheduling: one task holds the baton; it may lose it at any line of the package
    def yield_point(self):
        me = getattr(self.tls, "task", None)
        if me is None:
            return
        self.points += 1
        if not self.gaps:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        _, choice = self.gaps.popleft()
        self.gap = self.gaps[0][0] + 1 if self.gaps else 0
        self.switch(me, choice)

    def switch(self, me, choice):
        others = [t for t in self.alive if t != me]
        if not others:
            return False
        to = others[choice % len(others)]
        self.switches += 1
        self.stats["preemptions"] += 1
        self.schedh.update(b"%d>%d@%d;" % (me, to, self.points))
        self.sem[to].release()
        self.sem[me].acquire()
        return True

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        self.on_line(frame, event)
        return self.on_trace

    def on_trace(self, frame, event, arg):
        self.on_line(frame, event)
        return self.on_trace

    def on_line(self, frame, event):
        if event in ("line", "call", "return"):
            self.lines.add((frame.f_code.co_filename[len(SRC):], frame.f_lineno))
            self.yield_point()

    # -------- the compiled module
    def native(self):
        run = self
        m = types.ModuleType("neo._neo", "model of the compiled module")
        m.__version__ = "0"
        m.norm, m.convolution_mode, m.convolution_method = Norm, Mode, Method

        def guard(name):
            run.yield_point()
            run.stats["native_calls"] += 1
            if getattr(run.tls, "fail", False):
                run.tls.fail = False
                run.stats["fault_native_memory"] += 1
                raise MemoryError("bad allocation")

        def arr(x, kind):
            a = np.asarray(x)
            if a.dtype.kind not in kind:
                raise TypeError("incompatible function arguments")
            return a

        def dft(inverse):
            def f(x, n, norm):
                guard("fft")
                a = np.asarray(x)
                if a.dtype.kind not in "fciu" or not isinstance(norm, Norm) or not (n is None or isinstance(n, (int, np.integer))):
                    raise TypeError("incompatible function arguments")
                if a.ndim != 1:
                    raise ValueError("unsupported dimension")
                size = len(a) if n is None else int(n)
                if size < 1 or size & (size - 1):
                    raise ValueError("unsupported size")
                r = (np.fft.ifft if inverse else np.fft.fft)(a.astype(np.complex128), size, norm=norm.name)
                run.yield_point()
                return r.astype(np.complex64 if a.dtype == np.complex64 else np.complex128)
            return f

        def conv(a, b, mode):
            guard("convolve")
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype.kind not in "fiu" or b.dtype.kind not in "fiu" or not isinstance(mode, Mode):
                raise TypeError("incompatible function arguments")
            if a.ndim != 1 or b.ndim != 1 or len(a) == 0 or len(b) == 0:
                raise ValueError("unsupported shape")
            if mode != Mode.full:
                raise RuntimeError("unsupported mode")
            r = np.convolve(a.astype(np.float64), b.astype(np.float64))
            run.yield_point()
            return r.astype(np.result_type(a, b))

        def each(f, err):
            def g(x):
                guard("each")
                with np.errstate(all="ignore"):
                    r = f(np.asarray(x, dtype=np.float64)) + err
                run.yield_point()
                return r
            return g

        def rfftfreq(n, d):
            guard("rfftfreq")
            if isinstance(n, bool) or not isinstance(n, (int, np.integer)):
                raise TypeError("incompatible function arguments")
            run.yield_point()
            return np.arange(int(n) // 2 + 1) / (int(n) * float(d)) if n > 0 else np.zeros(0)

        m.fft, m.ifft = dft(False), dft(True)
        m.direct_convolve = lambda a, b, mode: conv(a, b, mode)
        m.fft_convolve = lambda a, b, mode: conv(a, b, mode)
        m.amplitude_to_db = each(lambda x: 20 * np.log10(x), 0.0)
        m.amplitude_to_db_estimate = each(lambda x: 20 * np.log10(x), 1e-3)
        m.a_weighting = each(lambda x: x * 0.5, 0.0)
        m.fast_log2 = each(np.log2, 1e-3)
        m.fast_log10 = each(np.log10, 1e-3)
        m.rfftfreq = rfftfreq

        def missing(name):
            if name.startswith("__"):
                raise AttributeError(name)
            run.unknown = True  # the compiled module has grown: this model cannot stand in for it
            raise AttributeError(name)
        m.__getattr__ = missing
        return m

    # -------- a task's history
    def task(self, t):
        self.tls.task, self.tls.fail = t, False
        self.sem[t].acquire()
        sys.settrace(self.tracer)
        try:
            if self.bad is None:
                self.history(t)
        except Violation as e:
            self.bad = self.bad or (e.cls, e.msg)
        except BaseException as e:  # noqa
            self.bad = self.bad or ("unexpected", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.tls.task = None
            self.alive.remove(t)
            if self.alive:
                self.sem[self.alive[0]].release()
            else:
                self.done.release()

    def data(self, rng, n, kind):
        v = [rng.uniform(-1, 1) for _ in range(2 * n)]
        if kind == 0:
            return np.array(v[:n], dtype=np.float32)
        if kind == 1:
            return np.array(v[:n], dtype=np.float64)
        z = np.array(v[:n]) + 1j * np.array(v[n:])
        return z.astype(np.complex64 if kind == 2 else np.complex128)

    def array(self, slots, key, n, kind, refill, seed):
        """The caller's own array: kept, changed in place, or replaced by another of the same or another shape."""
        rng = random.Random(seed)
        a = slots.get((key, kind))
        if a is None or len(a) != n:
            a = slots[(key, kind)] = self.data(rng, n, kind)
        elif refill:
            a[:] = self.data(rng, n, kind)
        return a

    def history(self, t):
        slots, results = {}, []
        for oid, ot, name, arg in self.ops:
            if ot != t or self.bad is not None:
                continue
            arg = arg + [0] * (9 - len(arg))
            self.tls.fail = oid in self.faults
            self.one(slots, results, oid, name, arg)
            self.tls.fail = False
        for i, (r, copy) in enumerate(results):
            if not np.array_equal(r, copy, equal_nan=True):
                raise Violation("result-changed", "a result that was returned earlier changed later")

    def one(self, slots, results, oid, name, arg):
        neo = self.neo
        ins, want, tol, must_raise = [], None, 1e-9, False
        if name == "k.fft":
            key, refill, order, nsel, norm, inv, seed, how, kind = arg[:9]
            a = self.array(slots, key, 1 << (order % 8), 2 + kind % 2, refill, seed)
            n = None if nsel < 0 else 1 << (nsel % 9)
            nm = ["backward", "ortho", "forward"][norm % 3]
            f = neo.fft.ifft if inv % 2 else neo.fft.fft
            ins = [a]
            if how == 0:
                n, nm = None, "backward"
                call = lambda: f(a)
            elif how == 1:
                call = lambda: f(a, n=n, norm=nm)
            elif how == 2:
                call = lambda: f(a, n, nm)
            elif how == 3:
                n = None
                call = lambda: f(a, norm=nm)
            elif how == 4:
                nm = "backward"
                call = lambda: f(a, n)
            else:
                must_raise = True
                call = lambda: f(a, n, ["Backward", "", "none", "full"][norm % 4])
            if not must_raise:
                want = (np.fft.ifft if inv % 2 else np.fft.fft)(a.astype(np.complex128), n, norm=nm)
                tol = (1e-4 if kind % 2 == 0 else 1e-9) * (1 + np.max(np.abs(want)))
        elif name == "k.conv":
            key, refill, la, lb, mode, method, seed, how, kind = arg[:9]
            a = self.array(slots, key, 1 + la % 40, kind % 2, refill, seed)
            b = self.array(slots, key + 10, 1 + lb % 40, kind % 2, refill, seed + 1)
            ins = [a, b]
            md = ["full", "full", "full", "full", "valid", "same", "everything"][mode % 7]
            mt = ["auto", "direct", "fft"][method % 3]
            must_raise = md != "full"
            if how == 0:
                must_raise = False
                call = lambda: neo.convolve(a, b)
            elif how == 1:
                call = lambda: neo.convolve(a, b, mode=md, method=mt)
            elif how == 2:
                call = lambda: neo.convolve(a, b, md, mt)
            elif how == 3:
                must_raise = False
                call = lambda: neo.convolve(a, b, method=mt)
            else:
                call = lambda: neo.convolve(a, b, md)
            if not must_raise:
                want = np.convolve(a.astype(np.float64), b.astype(np.float64))
                tol = (1e-4 if kind % 2 == 0 else 1e-9) * (1 + np.max(np.abs(want)))
        elif name == "k.db":
            key, refill, la, prec, seed, which = arg[:6]
            a = self.array(slots, key, 1 + la % 20, 1, refill, seed)
            a[:] = np.abs(a) + 1e-3
            ins = [a]
            if which % 4 == 0:
                p = ["accurate", "estimate"][prec % 2]
                call = (lambda: neo.amplitude_to_db(a)) if prec == 2 else (lambda: neo.amplitude_to_db(a, precision=p))
                want, tol = 20 * np.log10(a), 1e-9 if prec % 2 == 0 else 1e-2
            elif which % 4 == 1:
                call, want, tol = (lambda: neo.fast_log2(a)), np.log2(a), 1e-2
            elif which % 4 == 2:
                call, want, tol = (lambda: neo.fast_log10(a)), np.log10(a), 1e-2
            else:
                call, want = (lambda: neo.a_weighting(a)), a * 0.5
        elif name == "k.freq":
            n, d, how = arg[:3]
            n = 2 + 2 * (n % 200)
            d = 1.0 / (1 + d % 50000)
            if how % 3 == 0:
                call, want = (lambda: neo.fft.rfftfreq(n)), np.arange(n // 2 + 1) / n
            elif how % 3 == 1:
                call, want = (lambda: neo.fft.rfftfreq(n, d)), np.arange(n // 2 + 1) / (n * d)
            else:
                call, want = (lambda: neo.fft.rfftfreq(n, d=d)), np.arange(n // 2 + 1) / (n * d)
            tol = 1e-9 * (1 + np.max(want))
        else:
            return
        before = [x.copy() for x in ins]
        got, err = None, None
        try:
            got = call()
        except Exception as e:
            err = e
        if self.bad is not None:
            return
        for x, y in zip(ins, before):
            if not np.array_equal(x, y):
                raise Violation("input-changed", "%s changed an argument" % name)
        self.hist.update(("%d %s;" % (oid, "raised" if err is not None else hashlib.sha256(np.ascontiguousarray(got).tobytes()).hexdigest())).encode())
        failed = oid in self.faults and not self.tls.fail
        if err is not None:
            self.stats["probe_raised"] += 1
            if not must_raise and not failed:
                raise Violation("unexpected-exception", "%s %s raised %s: %s" % (name, arg, type(err).__name__, err))
            return
        if failed:
            raise Violation("failure-swallowed", "%s %s returned although the compiled function ran out of memory" % (name, arg))
        if must_raise:
            raise Violation("not-raised", "%s %s returned for an unsupported argument" % (name, arg))
        self.stats["calls"] += 1
        g = np.asarray(got)
        if g.shape != want.shape or not np.all(np.abs(g - want) <= tol):
            raise Violation("mismatch", "%s %s: wrong result (shape %s, expected %s)" % (name, arg, g.shape, want.shape))
        if len(results) < 40:
            results.append((got, np.array(got, copy=True)))

    def go(self):
        tasks = sorted({o[1] for o in self.ops})
        for k in [k for k in sys.modules if k == "neo" or k.startswith("neo.")]:
            del sys.modules[k]
        run = self

        class SimLock:
            """A lock that waits by handing the baton on."""
            def __init__(self, reentrant):
                self.owner, self.n, self.reentrant = None, 0, reentrant

            def acquire(self, blocking=True, timeout=-1):
                me = getattr(run.tls, "task", -1)
                spins = 0
                while self.owner is not None and not (self.reentrant and self.owner == me):
                    if not blocking or me == -1 or not run.alive or spins > 100000:
                        return False
                    spins += 1
                    if not run.switch(me, spins):
                        raise Violation("deadlock", "a thread waits for a lock that nobody will release")
                self.owner, self.n = me, self.n + 1
                return True

            def release(self):
                self.n -= 1
                if self.n == 0:
                    self.owner = None
            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

            def locked(self):
                return self.owner is not None

        self.alive = list(tasks)
        sys.modules["neo._neo"] = self.native()
        threading.Lock, threading.RLock = (lambda: SimLock(False)), (lambda: SimLock(True))
        try:
            self.neo = importlib.import_module("neo")
        except Exception as e:
            if not self.unknown:
                self.bad = ("import", "the package cannot be imported: %s: %s" % (type(e).__name__, e))
        finally:
            threading.Lock, threading.RLock = RealLock, RealRLock
        if self.bad is None and not self.unknown and tasks:
            self.gaps = collections.deque(self.pres)
            self.gap = self.gaps[0][0] + 1 if self.gaps else 0
            self.sem = {t: threading.Semaphore(0) for t in tasks}
            self.done = threading.Semaphore(0)
            ths = [RealThread(target=self.task, args=(t,), daemon=True) for t in tasks]
            [th.start() for th in ths]
            self.sem[tasks[0]].release()
            self.done.acquire()
            [th.join() for th in ths]
        if self.unknown:
            self.bad = None
        rec = {"seed": self.seed, "hash": self.hist.hexdigest()[:16], "sched": self.schedh.hexdigest()[:16],
               "edges": self.points, "switches": self.switches, "simt": round(0.001 * self.stats["native_calls"], 6), "stats": dict(self.stats)}
        if self.bad is not None:
            rec["cls"], rec["msg"] = self.bad
        return rec


RealRLock = threading.RLock


# ---------------------------------------------------------------------------------- generation
def gen(prop, seed, tier):
    r = random.Random(seed)
    nt = r.choice([1, 1, 1, 2, 2, 3])
    out = ["prop %s" % prop, "seed %d" % seed]
    oid, faults = 0, []
    bias = r.randrange(5)
    for t in range(nt):
        orders = [r.randrange(8) for _ in range(2)]
        for _ in range(r.randrange(2, 14 if nt == 1 else 7)):
            u = r.random()
            kind = "k.fft" if u < 0.45 else "k.conv" if u < 0.75 else "k.db" if u < 0.9 else "k.freq"
            if bias == 0:
                kind = "k.fft"
            elif bias == 1:
                kind = "k.conv"
            s = r.getrandbits(31)
            if kind == "k.fft":
                a = [r.randrange(2), r.randrange(2), r.choice(orders), r.choice([-1, -1, r.randrange(9)]), r.randrange(3), r.randrange(2), s, r.choice([0, 1, 1, 2, 2, 3, 4, 5]), r.randrange(2)]
            elif kind == "k.conv":
                a = [r.randrange(2), r.randrange(2), r.choice([3, r.randrange(40)]), r.choice([3, r.randrange(40)]), r.randrange(7), r.randrange(3), s, r.randrange(5), r.randrange(2)]
            elif kind == "k.db":
                a = [r.randrange(2), r.randrange(2), r.choice([4, r.randrange(20)]), r.randrange(3), s, r.randrange(4)]
            else:
                a = [r.choice([8, r.randrange(200)]), r.randrange(50000), r.randrange(3)]
            out.append("op %d %d %s %s" % (oid, t, kind, " ".join(map(str, a))))
            if r.random() < 0.12:
                faults.append("fault %d native 0" % oid)
            oid += 1
    out += faults
    if nt > 1:
        mean = r.choice([2, 6, 20, 60])
        for _ in range(r.randrange(1, 40)):
            out.append("pre %d %d" % (int(r.expovariate(1.0 / mean)), r.randrange(64)))
    return "\n".join(out) + "\n"


def seed_of(base, i):
    return int.from_bytes(hashlib.sha256(("%s/%d" % (base, i)).encode()).digest()[:8], "big") >> 1


def main():
    cmd = sys.argv[2:]
    if cmd[0] == "gen":
        sys.stdout.write(gen(cmd[1], int(cmd[2]), int(cmd[3])))
    elif cmd[0] == "stdin":
        part = []
        for l in sys.stdin:
            if l.strip() == "end":
                print(json.dumps(Run("".join(part)).go()), flush=True)
                part = []
            else:
                part.append(l)
    elif cmd[0] == "exec":
        print(json.dumps(Run(open(cmd[1]).read()).go()))
    elif cmd[0] == "run":
        prop, base, j, n, most, secs, tier = cmd[1], cmd[2], int(cmd[3]), int(cmd[4]), int(cmd[5]), float(cmd[6]), int(cmd[7])
        t0, lines = time.time(), set()
        i = j
        while i < most and time.time() - t0 < secs:
            run = Run(gen(prop, seed_of(base, i), tier))
            print(json.dumps(run.go()))
            lines |= run.lines
            i += n
        total = 0
        import glob
        for f in glob.glob(SRC + "/neo/**/*.py", recursive=True):
            total += sum(1 for l in open(f) if l.strip() and not l.strip().startswith("#"))
        ids = sorted(int(hashlib.sha256(repr(x).encode()).hexdigest()[:7], 16) for x in lines)
        print(json.dumps({"cov_total": total, "cov_hit": ids}), flush=True)


main()
