"""A stand-in for multiprocessing.Pool whose scheduling is decided by the harness.

A schedule is a sequence of worker numbers: the k-th entry says which worker takes the k-th chunk of tasks (workers take
chunks in order, as from the queue of the real pool); `finish` is the order in which chunks are completed.  Arguments and
functions are pickled per chunk, as the real pool does.  In "fork" mode every worker is a real forked process that keeps its
state between the chunks it takes; in "copy" mode tasks run in this process on unpickled copies.
"""
import contextlib
import math
import multiprocessing
import multiprocessing.pool
import os
import pickle
import traceback


class Schedule:
    def __init__(self, take=None, finish=None, mode="copy"):
        self.take, self.finish, self.mode = take, finish, mode
        self.used = []       # (method, number of chunks) per call


class _Failed:
    def __init__(self, exc):
        self.exc = exc


def _run(blob):
    func, chunk, star = pickle.loads(blob)
    out = []
    for a in chunk:
        try:
            out.append(func(*a) if star else func(a))
        except Exception as e:     # the pool passes exceptions on to the caller
            out.append(_Failed(e))
    return out


class AsyncResult:
    def __init__(self, values, single, callback=None, error_callback=None):
        self._v, self._single = values, single
        bad = [v for v in values if isinstance(v, _Failed)]
        if bad and error_callback:
            error_callback(bad[0].exc)
        if not bad and callback:
            callback(values[0] if single else values)

    def get(self, timeout=None):
        for v in self._v:
            if isinstance(v, _Failed):
                raise v.exc
        return self._v[0] if self._single else list(self._v)

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return not any(isinstance(v, _Failed) for v in self._v)


class ControlledPool:
    schedule = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._n = processes or 4
        self._closed = False
        if self._n < 1:
            raise ValueError("Number of processes must be at least 1")
        self._pending = []
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._closed = True

    def close(self):
        self._closed = True

    terminate = close

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")

    # -- execution
    def _execute(self, func, tasks, chunksize, star, method):
        if self._closed:
            raise ValueError("Pool not running")
        tasks = list(tasks)
        s = self.schedule
        chunks = [tasks[i:i + chunksize] for i in range(0, len(tasks), chunksize)]
        s.used.append((method, len(chunks), len(tasks)))
        blobs = [pickle.dumps((func, c, star)) for c in chunks]
        if s.mode == "fork":
            done = self._fork(blobs)
        else:
            order = self._finish(len(blobs))
            done = [None] * len(blobs)
            for k in order:
                done[k] = _run(blobs[k])
        return [pickle.loads(pickle.dumps(d)) for d in done]

    def _finish(self, n):
        f = self.schedule.finish
        return list(range(n)) if f is None else [i for i in f if i < n] + [i for i in range(n) if i not in f]

    def _fork(self, blobs):
        take = self.schedule.take or []
        take = [take[k] % self._n if k < len(take) else k % self._n for k in range(len(blobs))]
        done = [None] * len(blobs)
        for w in sorted(set(take)):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = [(k, _run(blobs[k])) for k in range(len(blobs)) if take[k] == w]
                    with os.fdopen(wr, "wb") as f:
                        f.write(pickle.dumps(out))
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            for k, v in pickle.loads(blob):
                done[k] = v
        return done

    @staticmethod
    def _raise(v):
        if isinstance(v, _Failed):
            raise v.exc
        return v

    def _default_chunk(self, n):
        return max(1, math.ceil(n / (4 * self._n)))

    # -- the public interface
    def imap(self, func, iterable, chunksize=1):
        for d in self._execute(func, iterable, chunksize, False, "imap"):
            for v in d:
                yield self._raise(v)

    def imap_unordered(self, func, iterable, chunksize=1):
        done = self._execute(func, iterable, chunksize, False, "imap_unordered")
        for k in self._finish(len(done)):
            for v in done[k]:
                yield self._raise(v)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        tasks = list(iterable)
        done = self._execute(func, tasks, chunksize or self._default_chunk(len(tasks)), False, "map")
        return AsyncResult([v for d in done for v in d], False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        tasks = list(iterable)
        done = self._execute(func, tasks, chunksize or self._default_chunk(len(tasks)), True, "starmap")
        return AsyncResult([v for d in done for v in d], False, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return AsyncResult(self._execute(_Call(func, kwds), [tuple(args)], 1, True, "apply")[0], True, callback, error_callback)


class _Call:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, *a):
        return self.func(*a, **self.kwds)


@contextlib.contextmanager
def controlled(schedule):
    """Every pool made inside uses the given schedule."""
    import templatefitter.fitter as fitter

    class Pool(ControlledPool):
        pass
    Pool.schedule = schedule
    real = multiprocessing.Pool
    saved = [(multiprocessing, "Pool", real), (multiprocessing.pool, "Pool", multiprocessing.pool.Pool)]
    for k, v in list(vars(fitter).items()):
        if v == real or v is multiprocessing.pool.Pool:
            saved.append((fitter, k, v))
    for o, k, _ in saved:
        setattr(o, k, Pool)
    try:
        yield schedule
    finally:
        for o, k, v in saved:
            setattr(o, k, v)
