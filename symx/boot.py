"""Set a process up for symbolic execution or for replay on the real stack, then import DRecPy from /repo."""
import importlib
import os
import sys
import tempfile
import types

MODE = None
SHIMS = {}
SCRATCH = None


def scratch_root():
    """scratch area outside /repo and /verif; honours SYMX_SCRATCH (set and removed by the runner)"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = os.environ.get('SYMX_SCRATCH') or tempfile.mkdtemp(prefix='symx_')
        os.makedirs(SCRATCH, exist_ok=True)
    return SCRATCH


def _env():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    if os.path.isdir('/opt/venv/mplconfig'):
        os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    d = os.path.join(scratch_root(), f'data{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    os.environ['DATA_FOLDER'] = d
    sys.dont_write_bytecode = True


def start(mode, real_tf=True):
    """mode: 'sym' | 'real'"""
    global MODE
    if MODE is not None:
        assert MODE == mode
        return
    MODE = mode
    _env()
    import warnings
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from . import core, env, fns, loader
    pool = env.make_pool_module()
    mp = env.make_mp_module(pool)
    fut = env.make_futures_module()
    shims = {'random': env.make_random_module(), 'time': env.make_time_module(), 'multiprocessing': mp,
             'multiprocessing.pool': pool, 'multiprocessing.dummy': mp.dummy, 'concurrent.futures': fut,
             'tqdm': env.make_tqdm_module(), 'threading': env.make_threading_module()}
    shims['tqdm.auto'] = shims['tqdm'].auto
    # a module-level shim for `from concurrent import futures`
    conc = types.ModuleType('concurrent')
    conc.futures = fut
    shims['concurrent'] = conc
    if mode == 'sym':
        from . import pdx, sqlx, spx, tfx
        pdx.install()
        sq = sqlx.make_module()
        scipy, sparse = spx.make_scipy()
        skl, met, pw = spx.make_sklearn()
        tf = tfx.make_module()
        mpl, plt = env.make_mpl()
        shims.update({'math': fns.math, 'sqlite3': sq, 'scipy': scipy, 'scipy.sparse': sparse, 'sklearn': skl,
                      'sklearn.metrics': met, 'sklearn.metrics.pairwise': pw, 'tensorflow': tf,
                      'matplotlib': mpl, 'matplotlib.pyplot': plt})
        jl = types.ModuleType('joblib')

        # joblib is the standard pickling protocol with its own framing of arrays and optional compression
        def jdump(value, filename, compress=0, protocol=None, cache_size=None):
            import pickle
            data = pickle.dumps(value, protocol)
            if hasattr(filename, 'write'):
                filename.write(data)
                return None
            with open(filename, 'wb') as f:
                f.write(data)
            return [str(filename)]

        def jload(filename, mmap_mode=None, **k):
            import pickle
            if hasattr(filename, 'read'):
                return pickle.load(filename)
            with open(filename, 'rb') as f:
                return pickle.load(f)
        jl.dump, jl.load = jdump, jload
        shims['joblib'] = jl
    else:
        mpl, plt = env.make_mpl()
        shims.update({'matplotlib': mpl, 'matplotlib.pyplot': plt})
        if not real_tf:
            from . import tfx
            shims['tensorflow'] = tfx.make_module()
    for name, m in shims.items():
        _fallback(name, m, core)
    SHIMS.update(shims)
    loader.install(mode == 'sym', shims)
    core.CTX = _BootCtx()
    try:
        importlib.import_module('DRecPy')
        for m in ('DRecPy.Dataset', 'DRecPy.Sampler', 'DRecPy.Recommender', 'DRecPy.Recommender.Baseline',
                  'DRecPy.Recommender.EarlyStopping', 'DRecPy.Evaluation', 'DRecPy.Evaluation.Metrics',
                  'DRecPy.Evaluation.Processes', 'DRecPy.Evaluation.Splits', 'DRecPy.Evaluation.loss_tracker'):
            importlib.import_module(m)
    finally:
        core.CTX = None


def lib(name):
    """the library of that name as DRecPy sees it in this process"""
    return SHIMS[name] if name in SHIMS else importlib.import_module(name)


def _fallback(name, m, core):
    """names a stand-in does not define: the real library's (tensorflow: unsupported when used)"""
    if name in ('matplotlib', 'matplotlib.pyplot', 'concurrent') or getattr(m, '__getattr__', None) is not None:
        return

    class Missing:
        def __init__(self, n):
            self.n = n

        def __call__(self, *a, **k):
            core.raise_unsupported(f'{name}.{self.n} is not modelled')

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return Missing(f'{self.n}.{n}')

    def getattr_(n):
        if n.startswith('__'):
            raise AttributeError(n)
        if name == 'tensorflow':
            return Missing(n)
        return getattr(importlib.import_module(name), n)
    m.__getattr__ = getattr_


class _BootCtx:
    """active while DRecPy's modules are imported"""
    symbolic = False
    opts = {}

    def lift(self, v):
        return v
