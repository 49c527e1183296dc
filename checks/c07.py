"""C07: saving and loading a dataset loses nothing."""
import os
import sys

from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
INT = {'user': ('int', -9, 9), 'item': ('int', 0, 9), 'interaction': ('real', -9, 9), 'timestamp': ('int', -99, 99)}
FIX = dict(INT, user=('seq', [2, 1, 2, 3]), item=('seq', [6, 5, 5, 7]))
DIG = dict(INT, user=('seq', [2, 1, 2, 1, 3]), item=('seq', [6, 5, 5, 6, 7]), interaction=('seq', [1234567.25, 0.1234567891, -1e-07, 3.0, 1 / 3]), timestamp=('seq', [1542571200, 978300760, -5, 0, 2 ** 31]))
STR = dict(INT, user=('seq', ['b', 'a,c', 'say "x"']), item=('seq', ['y;', "x'", 'z z']))
BOUNDS = {
    'quick': '3 rows with arbitrary numeric values or awkward strings (delimiters, quotes); plain, filtered, transformed or id-assigned datasets; values with many digits; every '
             'file format, chunk size, column subset, header; every history of 3 operations on a dataset loaded from a saved file, then reloading; failure of any single '
             'file removal/renaming during a save',
    'thorough': '4 rows, histories of 4 operations',
}
OUTSIDE = 'line breaks inside values; crashes of the machine below the file system interface; partial writes of csv files; missing values'

FAULT = {'at': None, 'n': 0}


def _hook(event, args):
    if FAULT['at'] is None:
        return
    if event in ('os.remove', 'os.rename', 'shutil.move', 'os.link'):
        FAULT['n'] += 1
        if FAULT['n'] == FAULT['at']:
            raise OSError('injected failure')


_ON = []


def with_fault(k, fn):
    if not _ON:
        sys.addaudithook(_hook)
        _ON.append(1)
    FAULT.update(at=k, n=0)
    try:
        return attempt(fn)[1]
    finally:
        FAULT.update(at=None)


def load(ctx, path, **kw):
    from DRecPy.Dataset import InteractionDataset
    ds = InteractionDataset(path, verbose=False, **kw)
    ctx.__dict__.setdefault('_keep', []).append(ds)
    return ds


def renumber(m, cols=None):
    """what a fresh load of the saved file must contain"""
    r = m.remove()
    cols = [c for c in r.cols if cols is None or c in cols]
    out = Model(cols, [[x[c] for c in cols] for _, x in r.rows])
    return out


def in_order(ctx, ds, m, msg):
    """row order included"""
    ctx.check(sorted(ds.columns) == sorted(m.cols + ['rid']), f'{msg}: columns')
    ctx.check(len(ds) == len(m.rows), f'{msg}: number of rows')
    recs = ds.values_list()
    ctx.check(len(recs) == len(m.rows), f'{msg}: number of rows read')
    for rec, (i, r) in zip(recs, m.rows):
        ctx.check(int(rec['rid']) == i, f'{msg}: record ids')
        ctx.check(And(*[veq(rec[c], r[c]) for c in m.cols]), f'{msg}: row values')


def prep(ctx, backend, n, spec, pres, chunk=None):
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=2)
    rows = symrows(ctx, n, COLS, spec)
    ds = make_ds(ctx, 'mem' if backend == 'mem' else 'db', COLS, rows, **({'chunksize': chunk} if chunk else {})) if not isinstance(rows[0][0], str) else csv_ds(ctx, backend, rows)
    m = Model(COLS, rows)
    pre = ctx.choice('pre', pres)
    for c in pre:
        if c == 's':
            v = ctx.int('pre.v', -3, 3)
            ds = ds.select(f'interaction >= {lit(v)}')
            m = m.select([('interaction', '>=', v)])
        elif c == 'd':
            ds.drop([0], copy=False)
            m = m.drop([0])
        elif c == 'i':
            ds.assign_internal_ids()
            m = m.assign()
        elif not m.rows:
            ctx.prune('empty')
        elif c == 'a':
            ds.apply('interaction', lambda x: x * 2 + 1)
            m = m.apply('interaction', lambda x: x * 2 + 1)
        elif c == 't':
            ds.apply('timestamp', lambda x: x / 2)
            m = m.apply('timestamp', lambda x: x / 2)
        elif c == 'k':
            ctx._keep.append(ds.copy())
    return ds, m


def csv_ds(ctx, backend, rows):
    """awkward strings: through a properly quoted csv file"""
    import csv
    from DRecPy.Dataset import InteractionDataset
    p = fresh_path(ctx, '.csv')
    with open(p, 'w') as f:
        w = csv.writer(f, lineterminator='\n')
        for r in rows:
            w.writerow([fmt(v) for v in r])
    if backend == 'db' and not ctx.__dict__.get('_db_reset'):
        reset_db()
    return load(ctx, p, columns=list(COLS), in_memory=backend == 'mem')


def run_csv(ctx, backend, n, spec, pres):
    ds, m = prep(ctx, backend, n, spec, pres)
    if not m.rows:
        ctx.prune('empty')
    sub = ctx.choice('columns', [None, ['user', 'item', 'interaction'], ['timestamp', 'user', 'interaction', 'item', 'rid'], ['item']])
    header = ctx.bool('header')
    back = ctx.choice('back', ['mem', 'db'])
    if sub == ['item'] and back == 'mem':
        ctx.prune('required columns')
    path = fresh_path(ctx, '.csv')
    arg = None if sub is None else list(sub)
    if ctx.bool('exists'):
        with open(path, 'w') as f:
            f.write('old,content,1,2\n' * 3)
    ds.save(path, columns=arg, write_header=header)
    ctx.check(arg == sub, 'saving changed the column list')
    check_model(ctx, ds, m, backend, 'saving changed the dataset', proj=False)
    names = [c for c in (sub if sub is not None else ds.columns) if c not in ('rid', 'uid', 'iid')]
    if sub == ['item']:
        with open(path) as f:
            lines = f.read().split('\n')
        ctx.check(len(lines) == len(m.rows) + int(header) + 1 and lines[-1] == '', 'single column file: one line per row')
        return
    if back == 'db':
        reset_db()
        ctx._db_reset = True
    re = load(ctx, path, columns=names, in_memory=back == 'mem', has_header=header)
    want = renumber(m, names)
    in_order(ctx, re, want, f'csv loaded by {back}')
    if header:
        with open(path) as f:
            ctx.check(f.readline().strip() == ','.join(names), 'header line')


def run_sql(ctx, n, spec, pres, chunks=(None,)):
    ds, m = prep(ctx, 'db', n, spec, pres, ctx.choice('chunk', list(chunks)))
    if not m.rows:
        ctx.prune('empty')
    sub = ctx.choice('columns', [None, ['user', 'item', 'interaction'], ['rid', 'interaction', 'timestamp', 'item', 'user']])
    path = fresh_path(ctx, '.sqlite')
    arg = None if sub is None else list(sub)
    ds.save(path, columns=arg)
    ctx.check(arg == sub, 'saving changed the column list')
    check_model(ctx, ds, m, 'db', 'saving changed the dataset', proj=False)
    ctx.check(os.path.isfile(path), 'the file exists')
    re = load(ctx, path)
    want = renumber(m, sub)
    in_order(ctx, re, want, 'sqlite')
    in_order(ctx, re.copy(), want, 'copy of a loaded dataset')
    u = want.rows[0][1]['user']
    if not isinstance(u, str) or not set(u) & set(', '):
        check_model(ctx, re.select(f'user == {lit(u)}'), want.select([('user', '==', u)]), 'db', 'filtering a loaded dataset')
    re.assign_internal_ids()
    check_model(ctx, re, want.assign(), 'db', 'assigning ids to a loaded dataset')
    check_model(ctx, ds, m, 'db', 'the saved dataset', proj=False)


OPS7 = ['selI', 'dropI', 'uniq', 'app', 'appT', 'assign', 'read', 'close', 'copyclose', 'forget', 'savetmp', 'second']


def run_hist(ctx, n, length, spec):
    ds, m = prep(ctx, 'db', n, spec, ['', 'i'])
    path = fresh_path(ctx, '.sqlite')
    ds.save(path)
    want = renumber(m)
    if ctx.bool('drop source'):
        ctx._keep.remove(ds)
        ds.close()
    cur = load(ctx, path)
    cm = want.copy()
    for k in range(length):
        op = ctx.choice(f's{k}', OPS7)
        if op in ('app', 'appT') and (not cm.rows or 'interaction' not in cm.cols):
            ctx.prune('not applicable')
        if op == 'selI':
            if 'user' not in cm.cols or not cm.rows:
                ctx.prune('not applicable')
            u = cm.rows[0][1]['user']
            cur.select(f'user == {lit(u)}', copy=False)
            cm = cm.select([('user', '==', u)])
        elif op == 'dropI':
            cur.drop([0], copy=False)
            cm = cm.drop([0])
        elif op == 'uniq':
            if 'user' not in cm.cols:
                ctx.prune('not applicable')
            cur.unique(['user'], copy=False)
            cm = cm.unique(['user'])
        elif op == 'app':
            cur.apply('interaction', lambda x: x + 1)
            cm = cm.apply('interaction', lambda x: x + 1)
        elif op == 'appT':
            if cur.__dict__.get('_tsdone'):
                ctx.prune('once')
            cur.__dict__['_tsdone'] = True
            cur.apply('timestamp', lambda x: x / 2)
            cm = cm.apply('timestamp', lambda x: x / 2)
        elif op == 'assign':
            if 'item' not in cm.cols or not cm.rows:
                ctx.prune('not applicable')
            cur.assign_internal_ids()
            cm = cm.assign()
        elif op == 'read':
            for _ in range(2):
                check_model(ctx, cur, cm, 'db', 'loaded dataset')
        elif op == 'copyclose':
            c = cur.copy()
            c.drop([1], copy=False)
            c.values_list()
            c.close()
        elif op == 'savetmp':
            if 'item' not in cm.cols:
                ctx.prune('not applicable')
            cur.save(fresh_path(ctx, '.sqlite'))
        elif op == 'second':
            in_order(ctx, load(ctx, path), want, 'second load')
        else:
            ctx._keep.remove(cur)
            if op == 'close':
                cur.close()
            cur = None
            cur = load(ctx, path)
            cm = want.copy()
            in_order(ctx, cur, want, 'reloaded after closing')
    check_model(ctx, cur, cm, 'db', 'loaded dataset', proj=False)
    if ctx.bool('close'):
        ctx._keep.clear()
        cur.close()
        cur = None
    ctx.check(os.path.isfile(path), 'the saved file still exists')
    in_order(ctx, load(ctx, path), want, 'reloaded at the end')


def run_over(ctx, n, spec):
    """saving over the file a dataset was loaded from"""
    ds, m = prep(ctx, 'db', n, spec, ['', 'i'])
    path = fresh_path(ctx, '.sqlite')
    ds.save(path)
    want = renumber(m)
    cur = load(ctx, path)
    for k in range(2):
        op = ctx.choice(f's{k}', ['dropI', 'app', 'assign', 'read', 'none'])
        if op == 'dropI':
            rid = want.rows[0][0]
            cur.drop([rid], copy=False)
            want = want.drop([rid])
        elif op == 'app' and want.rows:
            cur.apply('interaction', lambda x: x + 1)
            want = want.apply('interaction', lambda x: x + 1)
        elif op == 'assign' and want.rows:
            cur.assign_internal_ids()
            want = want.assign()
        elif op == 'read':
            cur.values_list()
            cur.values_list()
    if not want.rows:
        ctx.prune('empty')
    if ctx.bool('other'):
        o = load(ctx, path)
        _, err = attempt(cur.save)
        ctx.check(err is not None, 'saving over a file in use by another dataset must raise')
        ctx._keep.remove(o)
        o.close()
        del o
    cur.save()
    ids = want.ids
    want = renumber(want)
    sv = want.assign() if ids else want
    check_model(ctx, cur, sv, 'db', 'dataset after saving over its own file')
    if ctx.bool('close'):
        ctx._keep.remove(cur)
        cur.close()
    else:
        cur.drop([0], copy=False)
        cur.values_list()
        cur.values_list()
    in_order(ctx, load(ctx, path), want, 'reloaded after saving over')


def run_fault(ctx, n, spec):
    ds, m = prep(ctx, 'db', n, spec, ['', 'd'])
    path = fresh_path(ctx, '.sqlite')
    ds.save(path)
    old = renumber(m)
    own = ctx.bool('own')
    if own:
        cur = load(ctx, path)
        cur.apply('interaction', lambda x: x + 1)
        new = old.apply('interaction', lambda x: x + 1)
    else:
        cur = ds
        cur.apply('interaction', lambda x: x + 1)
        new = renumber(m.apply('interaction', lambda x: x + 1))
    stale = ctx.bool('stale temporary file')
    if stale:
        with open(path + '.tmp', 'w') as f:
            f.write('')
    k = ctx.cint('failing operation', 1, 3)
    err = with_fault(k, lambda: cur.save(path))
    ctx.check(os.path.isfile(path), 'the previously saved file is missing after a failed save')
    if own:
        ctx._keep.remove(cur)
        attempt(cur.close)
        del cur
    re = load(ctx, path)
    in_order(ctx, re, new if err is None else old, 'file after a failed save' if err else 'file after a save')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    out = []
    for b in ('mem', 'db'):
        out.append(Scenario(f'csv.{b}', run_csv, dict(backend=b, n=n, spec=INT, pres=['', 's', 'a', 'd'])))
        out.append(Scenario(f'csv.{b}.digits', run_csv, dict(backend=b, n=5, spec=DIG, pres=['', 'd'])))
        out.append(Scenario(f'csv.{b}.ids', run_csv, dict(backend=b, n=3, spec=FIX, pres=['i', 't', 'isa'])))
        out.append(Scenario(f'csv.{b}.str', run_csv, dict(backend=b, n=3, spec=STR, pres=['', 'id'])))
    out.append(Scenario('sqlite', run_sql, dict(n=n, spec=INT, pres=['', 's', 'd', 'k'])))
    out.append(Scenario('sqlite.chunk', run_sql, dict(n=4, spec=FIX, pres=['', 'd'], chunks=(1, 2, 3, 4))))
    out.append(Scenario('sqlite.digits', run_sql, dict(n=5, spec=DIG, pres=['', 'd'])))
    out.append(Scenario('sqlite.ids', run_sql, dict(n=3, spec=FIX, pres=['i', 't', 'isa', 'ki'])))
    out.append(Scenario('sqlite.str', run_sql, dict(n=3, spec=STR, pres=['', 'id'])))
    out.append(Scenario('loaded', run_hist, dict(n=3, length=4 if T else 3, spec=FIX), weight=2))
    out.append(Scenario('over', run_over, dict(n=3, spec=FIX)))
    out.append(Scenario('fault', run_fault, dict(n=2, spec=FIX)))
    return out
