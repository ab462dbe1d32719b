"""Exploration engine: enumerates traces, runs them on the real code, compares with a model.

A property module offers PARTS, a list of Part.  A Part has a finite, completely enumerated
list of items (traces) and a function run(acc, item) that executes one trace on fresh real
objects and compares it with the reference model through the accumulator `acc`.
"""
import collections
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import signal
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE_TIMEOUT = 150      # seconds; traces take milliseconds
WALL_CAP = 800           # seconds for a quick run; a capped run says so


class Mismatch(Exception):
    def __init__(self, key, expected=None, got=None):
        super().__init__(key)
        self.key, self.expected, self.got = key, expected, got


class TraceTimeout(BaseException):
    pass


class Part:
    def __init__(self, name, items, run, bound="", serial=False, states=True):
        self.name, self.items, self.run = name, items, run
        self.bound, self.serial = bound, serial


def plain(x):
    """numpy / pandas objects to nested python lists of floats."""
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def differs(got, want, rtol, atol):
    """None if equal within tolerance, else a short description of the first difference."""
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return f"expected a sequence of {len(want)}, got {got!r}"
        if len(got) != len(want):
            return f"length {len(got)} instead of {len(want)}"
        for i, (g, w) in enumerate(zip(got, want)):
            d = differs(g, w, rtol, atol)
            if d:
                return f"[{i}]: {d}"
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(got) != list(want):
            return f"keys {list(got) if isinstance(got, dict) else got!r} instead of {list(want)}"
        for k in want:
            d = differs(got[k], want[k], rtol, atol)
            if d:
                return f"[{k!r}]: {d}"
        return None
    if isinstance(want, bool) or want is None or isinstance(want, str):
        return None if got == want else f"{got!r} instead of {want!r}"
    if isinstance(want, (int, float)):
        if isinstance(got, (list, tuple)) and len(got) == 1:
            got = got[0]
        if not isinstance(got, (int, float)):
            return f"{got!r} instead of {want!r}"
        if math.isnan(want):
            return None if math.isnan(got) else f"{got!r} instead of nan"
        if math.isinf(want) or math.isinf(got) or math.isnan(got):
            return None if got == want else f"{got!r} instead of {want!r}"
        if abs(got - want) <= atol + rtol * abs(want):
            return None
        return f"{got!r} instead of {want!r}"
    return None if got == want else f"{got!r} instead of {want!r}"


class Acc:
    """What a set of traces covered and found."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.compared = 0
        self.outcomes = collections.Counter()
        self.failures = []
        self.findings = {}
        self.samples = []
        self._ops = []

    # -- used by traces
    def op(self, *desc):
        self.transitions += 1
        self._ops.append(" ".join(str(d) for d in desc))

    def step(self, n=1):
        self.transitions += n

    def state(self, s):
        self.states.add(hash(repr(s)))

    def outcome(self, o):
        self.outcomes[str(o)[:80]] += 1

    def eq(self, got, want, what, rtol=1e-9, atol=1e-12):
        self.compared += 1
        d = differs(plain(got), plain(want), rtol, atol)
        if d:
            raise Mismatch(f"{what}: {d}", plain(want), plain(got))

    def true(self, cond, what, got=None):
        self.compared += 1
        if not cond:
            raise Mismatch(what, True, plain(got))

    def refused(self, fn, what, kinds=(Exception,)):
        """fn must raise one of kinds."""
        self.transitions += 1
        try:
            r = fn()
        except kinds:
            self.compared += 1
            return
        raise Mismatch(f"{what}: accepted instead of refused", "an error", plain(r) if r is None or isinstance(r, (int, float, str)) else type(r).__name__)

    def finding(self, key, text):
        """A defect that may be listed in known_findings.txt; does not end the trace."""
        self.findings.setdefault(key, [text, list(self._ops), self._where()])

    def _where(self):
        return getattr(self, "_cur", None)

    # -- engine
    def run_trace(self, part, item):
        self._ops = []
        self._cur = (part.name, repr(item))
        self.traces += 1
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(TRACE_TIMEOUT)
        try:
            part.run(self, item)
        except Mismatch as m:
            self._fail(part, item, m.key, m.expected, m.got)
        except TraceTimeout:
            self._fail(part, item, f"trace did not end within {TRACE_TIMEOUT} s", "termination", None)
        except MemoryError:
            raise
        except Exception as e:
            self._fail(part, item, f"unexpected {type(e).__name__}: {str(e)[:300]}", "no error",
                       traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if len(self.samples) < 2:
            self.samples.append({"part": part.name, "item": repr(item)[:400],
                                 "operations": [o[:200] for o in self._ops[:12]]})

    def _fail(self, part, item, key, expected, got):
        if len(self.failures) < 5:
            self.failures.append({"part": part.name, "item": repr(item), "what": key,
                                  "expected": _short(expected), "got": _short(got),
                                  "operations": list(self._ops)})

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.compared += o.compared
        self.outcomes.update(o.outcomes)
        self.failures.extend(o.failures)
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        self.samples.extend(o.samples)


def _short(x):
    s = x if isinstance(x, str) else repr(x)
    return s[-3000:]


def _alarm(signum, frame):
    raise TraceTimeout()


def warm_up():
    """Compiles what the code compiles at its first use, so that it is compiled before forking."""
    try:
        import numpy as np
        from templatefitter.histograms import Hist1d
        from templatefitter.templates import Template1d
        Template1d("warm", "x", Hist1d(2, (0.0, 2.0), data=np.array([0.5, 1.5]))).values
    except Exception:
        pass


class Worker:
    """A forked process that runs chunks of traces; nothing is shared with other workers, so that it can be killed."""

    def __init__(self, part, items, shared, slot):
        self.part, self.shared, self.slot = part, shared, slot
        self.chunk = None
        self.conn, theirs = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                self.conn.close()
                self._loop(theirs, items)
            except BaseException:
                pass
            os._exit(0)
        theirs.close()

    def _loop(self, conn, items):
        while True:
            idx = conn.recv()
            acc = Acc()
            try:
                for i in idx:
                    self.shared[2 * self.slot], self.shared[2 * self.slot + 1] = i, time.time()
                    acc.run_trace(self.part, items[i])
                    if acc.failures:
                        break
                self.shared[2 * self.slot] = -1
                acc.samples = acc.samples[:1] if idx and idx[0] == 0 else []
                conn.send(acc)
            except BaseException:
                conn.send(traceback.format_exc())

    def give(self, chunk):
        self.chunk = chunk
        self.shared[2 * self.slot] = -1
        self.conn.send(chunk)

    def kill(self):
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            status = os.waitpid(self.pid, 0)[1]
        except ChildProcessError:
            status = 0
        self.conn.close()
        return status

    def overdue(self):
        i, t = self.shared[2 * self.slot], self.shared[2 * self.slot + 1]
        return i >= 0 and time.time() - t > TRACE_TIMEOUT + 20


def explore(part, items, nproc, deadline):
    """Runs every item; returns (Acc, capped).  A trace that kills its process or never returns is run once more on its
    own, and is a failure if that happens again."""
    total = Acc()
    n = len(items)
    if n == 0:
        return total, False
    warm_up()
    if part.serial or n < 8:
        nproc = 1
    size = max(1, min(2000, math.ceil(n / (nproc * 8))))
    todo = collections.deque([[0]] + [list(range(i, min(n, i + size))) for i in range(1, n, size)])
    shared = multiprocessing.RawArray("d", [-1.0] * (2 * nproc))
    workers, suspects, capped, lost = {}, set(), False, None
    try:
        while (todo or any(w.chunk for w in workers.values())) and not total.failures:
            if time.time() > deadline:
                capped = True
                break
            for slot in range(nproc):
                if not todo:
                    break
                if slot not in workers:
                    workers[slot] = Worker(part, items, shared, slot)
                if workers[slot].chunk is None:
                    try:
                        workers[slot].give(todo[0])
                        todo.popleft()
                    except OSError:
                        workers.pop(slot).kill()
            busy = {w.conn: (s, w) for s, w in workers.items() if w.chunk}
            for conn in multiprocessing.connection.wait(list(busy), timeout=0.5):
                slot, w = busy[conn]
                try:
                    got = conn.recv()
                except (EOFError, OSError):
                    lost = w
                    continue
                if isinstance(got, str):
                    raise RuntimeError(f"worker failed: {got}")
                w.chunk = None
                total.merge(got)
            for slot, w in list(workers.items()):
                if w is not lost and not (w.chunk and w.overdue()):
                    continue
                lost, late, chunk, i = None, w.overdue(), w.chunk, int(shared[2 * slot])
                status = w.kill()
                del workers[slot]
                if chunk is None:
                    continue
                if i < 0:
                    i = chunk[0]
                if i in suspects:
                    acc = Acc()
                    acc._fail(part, items[i], f"trace did not end within {TRACE_TIMEOUT} s" if late else
                              f"trace ended its process (status {status})", "termination", None)
                    total.merge(acc)
                else:
                    suspects.add(i)
                    todo.extend([[j] for j in chunk if j == i] + ([[j for j in chunk if j != i]] if len(chunk) > 1 else []))
    finally:
        for w in workers.values():
            w.kill()
    return total, capped


def load_known(prop):
    """known_findings.txt: lines `known: property=<id> key=<key> <text>`."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 3 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                known[w[2][4:]] = " ".join(w[3:])
    return known
