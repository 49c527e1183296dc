"""Environment stubs shared by symbolic and real (replay) mode: RNG, thread pool, clock.

They are nondeterministic within their documented contract: every random draw, every task
order is an input of the path (a solver variable in symbolic mode, a recorded value when a
path is replayed on the real stack).
"""
import os
import random as _random
import sys
import threading
import types

from . import core
from .core import SymBase, SymBool, SymNum


class RngState:
    """per-path registry of RNG streams"""

    def __init__(self):
        self.seeds = []        # (seed value, key)
        self.fresh = 0
        self.drawn = set()
        self.globaluse = 0
        self.names = 0


def _st():
    c = core.ctx()
    if not hasattr(c, 'rng_state'):
        c.rng_state = RngState()
    return c.rng_state


def _argkey(a):
    if isinstance(a, SymBase):
        return 'sym'
    return str(a)


class SRandom:
    """Stand-in for random.Random: draws are path inputs keyed by (seed, draw history)."""

    def __init__(self, seed=None, _key=None):
        self._hist = 0
        self._path = ()
        self._key = _key if _key is not None else self._seedkey(seed)

    def seed(self, a=None, version=2):
        self._key = self._seedkey(a)
        self._path = ()

    def _seedkey(self, seed):
        st = _st()
        if seed is None:
            st.fresh += 1
            return f'fresh{st.fresh}'
        if isinstance(seed, SymNum):
            for s, k in st.seeds:
                if bool(s == seed):
                    return k
            k = f'seedsym{len(st.seeds)}'
            st.seeds.append((seed, k))
            return k
        for s, k in st.seeds:
            r = (s == seed)
            if bool(r):
                return k
        k = f'seed{seed}'
        st.seeds.append((seed, k))
        return k

    def _name(self, kind, *args):
        c = core.ctx()
        st = _st()
        self._path = self._path + ((kind,) + tuple(_argkey(a) for a in args),)
        # the stream is a function of (seed, history of calls)
        h = '/'.join(':'.join(p) for p in self._path)
        name = f'rng|{self._key}|{h}'
        if name not in st.drawn and self._key not in c.opts.get('fixed_streams', ()):
            st.drawn.add(name)
            if len(st.drawn) > c.opts.get('max_draws', 24):
                c.prune('draw budget')
        return name

    def _draw_int(self, name, lo, hi):
        c = core.ctx()
        lo, hi = int(lo), int(hi)
        if self._key in c.opts.get('fixed_streams', ()):
            return lo + len(self._path) % (hi - lo + 1)
        memo = c.__dict__.setdefault('rng_memo', {})
        if name in memo:
            return memo[name]
        if hi - lo > 200:
            v = c.int(name, lo, hi)
        else:
            v = c.cint(name, lo, hi)
        memo[name] = v
        return v

    def randint(self, a, b):
        if isinstance(a, float) and not isinstance(a, SymBase) and a == int(a):
            a = int(a)
        if isinstance(b, float) and not isinstance(b, SymBase) and b == int(b):
            # random.randint rejects non-integral floats (Python >= 3.12 rejects all floats)
            _random.Random(0).randint(a, b)
        if bool(a > b):
            raise ValueError(f'empty range for randrange() ({a}, {b})')
        a, b = int(a), int(b)
        return self._draw_int(self._name('randint', a, b), a, b)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = len(range(int(start), int(stop), int(step)))
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return int(start) + int(step) * self._draw_int(self._name('randrange', start, stop, step), 0, n - 1)

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self._draw_int(self._name('choice', len(seq)), 0, len(seq) - 1)]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is not None or cum_weights is not None:
            core.raise_unsupported('weighted choices')
        return [self.choice(population) for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        if isinstance(population, (set, frozenset, dict)) or not hasattr(population, '__getitem__'):
            raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
        n = len(population)
        if isinstance(k, float) and not isinstance(k, SymBase):
            raise TypeError("'float' object cannot be interpreted as an integer")
        k = int(k)
        if not 0 <= k <= n:
            raise ValueError('Sample larger than population or is negative')
        name = self._name('sample', n, k)
        left = list(range(n))
        out = []
        for j in range(k):
            i = self._draw_int(f'{name}#{j}', 0, len(left) - 1)
            out.append(population[left.pop(i)])
        return out

    def shuffle(self, x):
        n = len(x)
        name = self._name('shuffle', n)
        if n <= 1:
            return
        mode = core.ctx().opts.get('shuffle', 'full')
        if mode == 'id':
            return
        if mode == 'full' and n <= 4:
            src, out = list(x), []
            for j in range(n - 1):
                i = self._draw_int(f'{name}#{j}', 0, len(src) - 1)
                out.append(src.pop(i))
            out.extend(src)
        else:
            # bounded: rotations of the list or of its reverse
            r = self._draw_int(f'{name}#rot', 0, 2 * n - 1 if mode != 'two' else 1)
            src = list(x)
            if mode == 'two':
                out = src if r == 0 else src[::-1]
            else:
                if r >= n:
                    src = src[::-1]
                    r -= n
                out = src[r:] + src[:r]
        x[:] = out

    def uniform(self, a, b):
        c = core.ctx()
        name = self._name('uniform', a, b)
        memo = c.__dict__.setdefault('rng_memo', {})
        if self._key in c.opts.get('fixed_streams', ()):
            return a + (b - a) * (len(self._path) % 8) / 8
        if name not in memo:
            memo[name] = c.real(name, 0, 1)
            c.assume(memo[name] < 1)
        return a + (b - a) * memo[name]

    def random(self):
        return self.uniform(0, 1)

    def getrandbits(self, k):
        return self._draw_int(self._name('bits', k), 0, 2 ** int(k) - 1)

    def getstate(self): return (self._key, self._path)

    def setstate(self, s): self._key, self._path = s

    def gauss(self, *a): core.raise_unsupported('gauss')
    normalvariate = triangular = betavariate = expovariate = gauss


class _Global:
    """module-level functions of random: the process-global generator"""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = core.ctx()
        if '_grng' not in c.__dict__:
            c._grng = SRandom(_key='global')
        _st().globaluse += 1
        return getattr(c._grng, name)


def make_random_module():
    m = types.ModuleType('random')
    m.Random = SRandom
    m.SystemRandom = SRandom
    g = _Global()

    def fwd(name):
        def f(*a, **k):
            return getattr(g, name)(*a, **k)
        f.__name__ = name
        return f
    for n in ('randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'uniform', 'getrandbits',
              'seed', 'getstate', 'setstate'):
        setattr(m, n, fwd(n))

    def rnd():
        # only used by DRecPy to make unique table / file names
        st = _st()
        st.names += 1
        return 0.1 + st.names * 1e-7
    m.random = rnd
    return m


# --------------------------------------------------------------------------- pre-emption
class Task:
    """a pool task that runs in its own (real) thread; exactly one thread runs at any time"""

    def __init__(self, sched, pool, item):
        self.sched, self.pool, self.item = sched, pool, item
        self.sem = threading.Semaphore(0)
        self.state, self.wait, self.end = 'ready', None, None
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.sem.acquire()
        self.sched.tid[threading.get_ident()] = self
        try:
            if self.sched.abort:
                return
            sys.settrace(self.sched.trace)
            try:
                self.pool._exec(self.item)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.end = e
        finally:
            self.state = 'done'
            self.sched.main.release()

    def runnable(self):
        return self.state != 'done' and (self.wait is None or self.wait.free_for(self))


class Sched:
    """explores schedules with a bounded number of pre-emptions (opts['preempt']); switches happen where a task
    takes a lock or calls a function (CPython only switches threads at such points)"""

    def __init__(self, c):
        self.c, self.left = c, c.opts.get('preempt', 0)
        self.main = threading.Semaphore(0)
        self.tasks, self.tid = [], {}
        self.abort, self.n, self.target = False, 0, None
        self.roots = c.opts.get('preempt_at', ('DRecPy' + os.sep + 'Evaluation',))

    def current(self):
        return self.tid.get(threading.get_ident())

    def startable(self, pool):
        return pool._q and sum(t.state != 'done' for t in self.tasks if t.pool is pool) < pool._limit()

    def options(self, pool, but=None):
        return [t for t in self.tasks if t.pool is pool and t is not but and t.runnable()] + (['new'] if self.startable(pool) else [])

    def _start(self, pool):
        t = Task(self, pool, pool._q.pop(0))
        self.tasks.append(t)
        t.thread.start()
        return t

    def run(self, pool):
        """main waits: tasks run until one of them is finished; False if there is none"""
        nxt, self.target = self.target, None
        while True:
            self.c._alive()
            if nxt is None:
                o = self.options(pool)
                if not o:
                    if any(t.state != 'done' for t in self.tasks if t.pool is pool):
                        self.c.hang = True
                        raise core.Hang('tasks wait for each other')
                    return False
                nxt = o[0]
                if self.c.opts.get('pool') == 'any' and len(o) > 1:
                    nxt = o[self.c.cint(f'sched|{pool._n}|{pool._step}', 0, len(o) - 1)]
                pool._step += 1
            if nxt == 'new':
                nxt = self._start(pool)
            t, nxt = nxt, None
            t.sem.release()
            self.main.acquire()
            if t.state == 'done':
                if t.end is not None and not isinstance(t.end, Exception):
                    raise t.end
                return True
            nxt, self.target = self.target, None

    def park(self, t):
        """t hands over and waits until it is chosen again"""
        self.main.release()
        t.sem.acquire()
        if self.abort:
            raise core.Pruned('aborted')

    def point(self):
        """the running task may be pre-empted here"""
        t = self.current()
        if t is None:
            return
        if self.abort:
            raise core.Pruned('aborted')
        if self.left <= 0:
            return
        o = self.options(t.pool, but=t)
        if not o:
            return
        self.n += 1
        old = sys.gettrace()
        sys.settrace(None)
        i = self.c.cint(f'preempt|{self.n}', 0, len(o))
        if i:
            self.left -= 1
            self.target = o[i - 1]
            self.park(t)
        sys.settrace(old)

    def trace(self, frame, event, arg):
        if event == 'call':
            b = frame.f_back
            if b is not None:
                f, g = frame.f_code.co_filename, b.f_code.co_filename
                if any(r in g for r in self.roots) and ('DRecPy' in f or '/checks/' in f):
                    self.point()
        return None

    def cleanup(self):
        self.abort = True
        if any(t.state != 'done' for t in self.tasks):
            self.c.ended = self.c.ended or 'aborted'
        for t in self.tasks:
            n = 0
            while t.state != 'done' and n < 50:
                t.sem.release()
                t.thread.join(0.2)
                n += 1


def sched():
    c = core.ctx()
    if not c.opts.get('preempt'):
        return None
    if 'sched_' not in c.__dict__:
        c.sched_ = Sched(c)
    return c.sched_


def cleanup(c):
    """end of a path"""
    s = c.__dict__.get('sched_')
    if s is not None:
        s.cleanup()


class SLock:
    """threading.Lock: waiting hands over to other tasks; waiting for ever is a hang"""
    reentrant = False

    def __init__(self):
        self._path, self._owner, self._n = None, None, 0

    def _reset(self):
        c = core.CTX
        if self._path is not c:
            self._path, self._owner, self._n = c, None, 0
        return c

    def free_for(self, t):
        return self._n == 0 or (self.reentrant and self._owner is t)

    def acquire(self, blocking=True, timeout=-1):
        c = self._reset()
        s = sched() if c is not None else None
        t = s.current() if s else None
        if s and t:
            s.point()
        me = t or 'main'
        while not self.free_for(me):
            if not blocking or timeout > 0:
                return False
            if t is None:
                c.hang = True
                raise core.Hang('waits for a lock that is never released')
            t.wait = self
            s.park(t)
            t.wait = None
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        c = self._reset()
        if self._n == 0:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        self._reset()
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SRLock(SLock):
    reentrant = True


def make_threading_module():
    m = types.ModuleType('threading')
    for k in dir(threading):
        if not k.startswith('__'):
            setattr(m, k, getattr(threading, k))
    m.Lock, m.RLock = SLock, SRLock
    return m


# --------------------------------------------------------------------------- thread pool
class AsyncResult:
    def __init__(self, pool):
        self._pool = pool
        self._done = False
        self._exc = None
        self._val = None

    def get(self, timeout=None):
        while not self._done:
            if not self._pool._run_one():
                raise core.Hang('task never runs')
        if self._exc is not None:
            raise self._exc
        return self._val

    def wait(self, timeout=None):
        while not self._done and self._pool._run_one():
            pass

    def ready(self):
        return self._done

    def successful(self):
        return self._done and self._exc is None


class SThreadPool:
    """multiprocessing.pool.ThreadPool: queued tasks run in any order (the order is a path input)."""
    counter = 0

    def __init__(self, processes=None, initializer=None, initargs=()):
        if processes is not None and bool(processes < 1):
            raise ValueError('Number of processes must be at least 1')
        c = core.ctx()
        n = getattr(c, 'pool_n', 0)
        c.pool_n = n + 1
        self._n = n
        self._q = []
        self._step = 0
        self._closed = False
        self._procs = processes
        c.__dict__.setdefault('pools', []).append(self)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self._closed:
            raise ValueError('Pool not running')
        r = AsyncResult(self)
        self._q.append((r, func, tuple(args), dict(kwds or {}), callback, error_callback))
        return r

    def _limit(self):
        return os.cpu_count() or 1 if self._procs is None else int(self._procs)

    def _run_one(self):
        c = core.ctx()
        s = sched()
        if s is not None:
            if s.current() is not None:
                core.raise_unsupported('a task that waits for other tasks')
            return s.run(self)
        if not self._q:
            return False
        c._alive()
        mode = c.opts.get('pool', 'fifo')
        i = 0
        if len(self._q) > 1:
            if callable(mode):
                i = mode(self, len(self._q))
            elif mode == 'any':
                i = c.cint(f'sched|{self._n}|{self._step}', 0, len(self._q) - 1)
            elif mode == 'lifo':
                i = len(self._q) - 1
        self._step += 1
        self._exec(self._q.pop(i))
        return True

    def _exec(self, item):
        c = core.ctx()
        r, func, args, kwds, cb, ecb = item
        try:
            r._val = func(*args, **kwds)
        except core.PathEnd:
            raise
        except Exception as e:
            r._exc = e
            c.__dict__.setdefault('swallowed', []).append(f'{type(e).__name__}: {e}')
            if ecb:
                ecb(e)
        r._done = True
        if r._exc is None and cb:
            cb(r._val)

    def drain(self):
        while self._run_one():
            pass

    def close(self): self._closed = True

    def terminate(self):
        self._closed = True
        self._q.clear()

    def join(self):
        if not self._closed:
            raise ValueError('Pool is still running')
        self.drain()

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        rs = [self.apply_async(func, (x,)) for x in it]

        class M:
            def get(s, timeout=None): return [r.get() for r in rs]
            def wait(s, timeout=None): self.drain()
            def ready(s): return all(r._done for r in rs)
            def successful(s): return all(r.successful() for r in rs)
        return M()

    def map(self, func, it, chunksize=None): return self.map_async(func, it).get()

    def starmap(self, func, it, chunksize=None):
        rs = [self.apply_async(func, tuple(x)) for x in it]
        return [r.get() for r in rs]

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        rs = [self.apply_async(func, tuple(x)) for x in it]

        class M:
            def get(s, timeout=None): return [r.get() for r in rs]
            def wait(s, timeout=None): self.drain()
            def ready(s): return all(r._done for r in rs)
        return M()

    def imap(self, func, it, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in it]
        for r in rs:
            yield r.get()

    def imap_unordered(self, func, it, chunksize=1): return self.imap(func, it)

    def __enter__(self): return self

    def __exit__(self, *a): self.terminate()


class SExecutor:
    """concurrent.futures.ThreadPoolExecutor"""

    def __init__(self, max_workers=None, *a, **k):
        self._p = SThreadPool(max_workers)

    def submit(self, fn, *a, **k):
        r = self._p.apply_async(fn, a, k)
        r.result = r.get
        r.done = r.ready
        r.exception = lambda timeout=None: (r.wait(), r._exc)[1]
        return r

    def map(self, fn, *its, timeout=None, chunksize=1):
        rs = [self.submit(fn, *a) for a in zip(*its)]
        return (r.get() for r in rs)

    def shutdown(self, wait=True, **k):
        if wait:
            self._p.drain()

    def __enter__(self): return self

    def __exit__(self, *a): self.shutdown()


def make_pool_module():
    m = types.ModuleType('multiprocessing.pool')
    m.ThreadPool = SThreadPool
    m.Pool = SThreadPool
    m.AsyncResult = AsyncResult
    return m


def make_mp_module(poolmod):
    import multiprocessing as real
    m = types.ModuleType('multiprocessing')
    m.pool = poolmod
    m.cpu_count = real.cpu_count
    dummy = types.ModuleType('multiprocessing.dummy')
    dummy.Pool = SThreadPool
    m.dummy = dummy
    m.Lock = SLock
    return m


def make_futures_module():
    import concurrent.futures as real
    m = types.ModuleType('concurrent.futures')
    for k in dir(real):
        try:
            setattr(m, k, getattr(real, k))
        except Exception:
            pass
    m.ThreadPoolExecutor = SExecutor

    def wait(fs, timeout=None, return_when=None):
        for f in fs:
            f.wait()
        return set(fs), set()

    def as_completed(fs, timeout=None):
        fs = list(fs)
        for f in fs:
            f.wait()
            yield f
    m.wait = wait
    m.as_completed = as_completed
    return m


# --------------------------------------------------------------------------- clock
def make_time_module():
    import time as real
    m = types.ModuleType('time')
    for k in dir(real):
        if not k.startswith('__'):
            setattr(m, k, getattr(real, k))

    def sleep(s):
        """time passes: queued tasks make progress; sleeping forever with no task left is a hang"""
        c = core.ctx()
        ran = False
        for p in getattr(c, 'pools', []):
            ran = p._run_one() or ran
        if not ran:
            c.idle_sleeps = getattr(c, 'idle_sleeps', 0) + 1
            if c.idle_sleeps > 6:
                c.hang = True
                raise core.Hang('waits forever: all tasks are finished but the progress loop never ends')
    m.sleep = sleep
    return m


def tqdm(iterable=None, *a, **k):
    class T:
        def __init__(self, it):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def update(self, n=1): pass
        def close(self): pass
        def refresh(self): pass
        def set_postfix(self, *a, **k): pass
        def set_description(self, d=None, refresh=True):
            self.desc = d
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def __len__(self): return len(self.it)
        def write(self, *a): pass
    t = T(iterable)
    return t


def make_tqdm_module():
    m = types.ModuleType('tqdm')
    m.tqdm = tqdm
    m.trange = lambda *a, **k: tqdm(range(*a))
    auto = types.ModuleType('tqdm.auto')
    auto.tqdm = tqdm
    m.auto = auto
    m.notebook = auto
    return m


def make_mpl():
    class Any:
        def __getattr__(self, n):
            return Any()

        def __call__(self, *a, **k):
            return Any()

        def __iter__(self):
            return iter([Any(), Any()])

        def __getitem__(self, i):
            return Any()

        def __len__(self):
            return 2
    plt = types.ModuleType('matplotlib.pyplot')
    calls = []

    class Axes(Any):
        def plot(self, *a, **k):
            if len(a) >= 2 and hasattr(a[0], '__len__') and hasattr(a[1], '__len__') and not isinstance(a[1], str) \
                    and len(a[0]) != len(a[1]):
                raise ValueError('x and y must have same first dimension')
            calls.append(('plot', a, k))

    def subplots(nrows=1, ncols=1, **k):
        if nrows * ncols == 1:
            return Any(), Axes()
        return Any(), [Axes() for _ in range(nrows * ncols)]
    plt.subplots = subplots
    plt.calls = calls
    for n in ('legend', 'show', 'close', 'figure', 'plot', 'title', 'xlabel', 'ylabel', 'tight_layout', 'savefig'):
        setattr(plt, n, lambda *a, **k: Any())
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    mpl.use = lambda *a, **k: None
    return mpl, plt
