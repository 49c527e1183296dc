"""Helpers shared by the harnesses (identical in symbolic runs and in replays on the real stack)."""
import os

from . import core
from .core import And, Iff, Implies, Not, Or, Sum, If, is_sym, close  # noqa: F401
from .engine import Scenario  # noqa: F401

OPS = ['==', '!=', '<', '<=', '>', '>=']


def op_holds(op, a, b):
    if op == '==': return a == b
    if op == '!=': return a != b
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    return a >= b


def attempt(fn, *a, **k):
    """(value, None) or (None, exception)"""
    try:
        return fn(*a, **k), None
    except Exception as e:
        core.ctx()._alive()
        return None, e


def guard(ctx):
    ctx._alive()


def fmt(v):
    """text of a value as it would be written in a file or a query"""
    return str(v) if not isinstance(v, float) or is_sym(v) else repr(v)


def lit(v):
    """query literal"""
    return repr(v) if isinstance(v, str) else fmt(v)


class Names:
    n = 0


def fresh_path(ctx, suffix):
    ctx.__dict__['_file_n'] = ctx.__dict__.get('_file_n', 0) + 1
    return os.path.join(ctx.tmp, f'f{ctx._file_n}{suffix}')


def write_csv(ctx, path, rows, delimiter=',', header=None):
    with open(path, 'w') as f:
        if header is not None:
            f.write(delimiter.join(header) + '\n')
        for r in rows:
            f.write(delimiter.join(_field(v, delimiter) for v in r) + '\n')


def _field(v, delimiter):
    t = fmt(v)
    if isinstance(v, str) and (delimiter in v or v[:1] == '"'):
        t = '"' + t.replace('"', '""') + '"'
    return t


def db_class():
    from DRecPy.Dataset.db_dataset import DatabaseInteractionDataset
    return DatabaseInteractionDataset


def reset_db():
    """fresh class-level registries (a path must not inherit state from the previous one)"""
    D = db_class()
    for n in ('_open_value_generators', '_shared_db_instances', '_shared_db_table_instances', '_temp_db_paths'):
        if hasattr(D, n):
            getattr(D, n).clear()
    for k, v in _DB_ORIG.items():
        setattr(D, k, v)
    _DB_ORIG.clear()


def make_ds(ctx, backend, cols, rows, ids=False, **kw):
    """a dataset with the given rows (list of tuples following cols)"""
    from DRecPy.Dataset import InteractionDataset
    if backend == 'mem':
        from . import pdx
        ds = InteractionDataset.read_df(pdx.frame(cols, rows), verbose=False)
    elif backend == 'memcsv':
        p = fresh_path(ctx, '.csv')
        write_csv(ctx, p, rows)
        ds = InteractionDataset(p, columns=list(cols), in_memory=True, verbose=False)
    else:
        if not ctx.__dict__.get('_db_reset'):
            ctx._db_reset = True
            reset_db()
        p = fresh_path(ctx, '.csv')
        write_csv(ctx, p, rows)
        ds = InteractionDataset(p, columns=list(cols), in_memory=False, verbose=False, **kw)
    ctx.__dict__.setdefault('_keep', []).append(ds)
    if ids:
        ds.assign_internal_ids()
    return ds


def symrows(ctx, n, cols, spec, tag='r'):
    """n rows of fresh values; spec: col -> ('int', lo, hi) | ('real', lo, hi) | ('str', [options]) | ('const', v)"""
    rows = []
    for i in range(n):
        row = []
        for c in cols:
            k = spec[c]
            nm = f'{tag}{i}.{c}'
            if k[0] == 'int':
                row.append(ctx.int(nm, k[1], k[2]))
            elif k[0] == 'cint':
                row.append(ctx.cint(nm, k[1], k[2]))
            elif k[0] == 'real':
                row.append(ctx.real(nm, k[1], k[2]))
            elif k[0] == 'str':
                row.append(ctx.choice(nm, k[1]))
            elif k[0] == 'seq':
                row.append(k[1][i])
            else:
                row.append(k[1])
        rows.append(tuple(row))
    return rows


def rid_rows(ds, cols=None):
    """rid -> record dict"""
    out = {}
    for rec in ds.values_list():
        r = rec['rid']
        out[int(r)] = rec
    return out


def veq(a, b):
    """value equality as the user sees it (numbers by value, strings exactly)"""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is b
    if is_sym(a) or is_sym(b):
        return a == b
    return float(a) == float(b) or close(a, b, 1e-9)


def row_eq(rec, cols, row):
    """does record dict rec hold exactly the values row for the columns cols"""
    return And(*[veq(rec[c], v) for c, v in zip(cols, row)])


def check_same_rows(ctx, ds, cols, expect, msg):
    """ds holds exactly expect: dict rid -> row tuple (concrete membership)"""
    got = rid_rows(ds)
    ctx.check(len(ds) == len(expect), f'{msg}: number of rows')
    ctx.check(sorted(got) == sorted(expect), f'{msg}: record ids')
    for rid, row in expect.items():
        ctx.check(row_eq(got[rid], cols, row), f'{msg}: row values')


def vec(v):
    """sparse row -> list of numbers"""
    a = v.toarray()
    return list(a.ravel())


def distinct(xs):
    """first occurrences, by value (forks on symbolic equality)"""
    out = []
    for x in xs:
        if not any(bool(veq(x, y)) for y in out):
            out.append(x)
    return out


def maybe_gc(ctx, name):
    """garbage collection may happen here"""
    import gc
    if ctx.bool(name):
        gc.collect()


# --------------------------------------------------------------------------- reference model of a dataset
class Model:
    """what a dataset should contain: a list of (rid, {column: value}) in order"""

    def __init__(self, cols, rows):
        self.cols = list(cols)
        self.rows = [(i, dict(zip(cols, r))) for i, r in enumerate(rows)]
        self.ids = False
        self.umap = self.imap = None

    def copy(self):
        m = Model(self.cols, [])
        m.rows = [(i, dict(r)) for i, r in self.rows]
        m.ids, m.umap, m.imap = self.ids, self.umap, self.imap
        return m

    def cell(self, i, col):
        rid, r = self.rows[i]
        return rid if col == 'rid' else r[col]

    def select(self, conds):
        m = self.copy()
        m.rows = [(i, r) for i, r in m.rows
                  if bool(And(*[op_holds(op, i if c == 'rid' else r[c], v) for c, op, v in conds]))]
        return m

    def drop(self, rids, keep=False):
        m = self.copy()
        m.rows = [(i, r) for i, r in m.rows if (i in rids) == keep]
        return m

    def unique(self, cols):
        m = self.copy()
        out = []
        for i, r in m.rows:
            if not any(bool(And(*[veq(r[c], q[c]) for c in cols])) for _, q in out):
                out.append((i, r))
        m.cols = list(cols)
        m.rows = [(i, {c: r[c] for c in cols}) for i, r in out]
        return m

    def apply(self, col, fn):
        m = self.copy()
        for _, r in m.rows:
            r[col] = fn(r[col])
        return m

    def assign(self):
        m = self.copy()
        us, its = distinct([r['user'] for _, r in m.rows]), distinct([r['item'] for _, r in m.rows])
        m.umap, m.imap = us, its
        for _, r in m.rows:
            r['uid'] = next(k for k, u in enumerate(us) if bool(veq(u, r['user'])))
            r['iid'] = next(k for k, u in enumerate(its) if bool(veq(u, r['item'])))
        for c in ('uid', 'iid'):
            if c not in m.cols:
                m.cols.append(c)
        m.ids = True
        return m

    def remove(self):
        m = self.copy()
        m.cols = [c for c in m.cols if c not in ('uid', 'iid')]
        for _, r in m.rows:
            r.pop('uid', None)
            r.pop('iid', None)
        m.ids = False
        return m


def check_model(ctx, ds, m, backend, msg, proj=True):
    """ds shows exactly the rows of m"""
    ctx.check(sorted(ds.columns) == sorted(m.cols + ['rid']), f'{msg}: columns')
    ctx.check(len(ds) == len(m.rows), f'{msg}: number of rows')
    recs = ds.values_list()
    order = [int(r['rid']) for r in recs]
    ctx.check(sorted(order) == sorted(i for i, _ in m.rows), f'{msg}: which rows')
    if backend != 'db':
        ctx.check(order == [i for i, _ in m.rows], f'{msg}: row order')
    want = dict(m.rows)
    for rec in recs:
        ctx.check(set(rec) == set(m.cols) | {'rid'}, f'{msg}: record columns')
        r = want[int(rec['rid'])]
        ctx.check(And(*[veq(rec[c], r[c]) for c in m.cols]), f'{msg}: row values')
    if proj:
        cols = list(reversed(m.cols)) + ['rid']
        for rec in ds.values_list(columns=cols, to_list=True):
            r = want[int(rec[-1])]
            ctx.check(len(rec) == len(cols), f'{msg}: projected row length')
            ctx.check(And(*[veq(v, r[c]) for c, v in zip(cols[:-1], rec)]), f'{msg}: projected row values')


_DB_ORIG = {}


def db_tune(**kw):
    """set class level tuning knobs of the database backend for this path (restored by reset_db)"""
    D = db_class()
    for k, v in kw.items():
        if hasattr(D, k):
            _DB_ORIG.setdefault(k, getattr(D, k))
            setattr(D, k, v)


def sparse():
    """scipy.sparse of the current mode"""
    from . import boot, spx
    if boot.MODE == 'sym':
        return spx
    import scipy.sparse
    return scipy.sparse
