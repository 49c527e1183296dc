"""C28: named datasets are complete, are downloaded once, and their generated train / test splits stay fixed."""
import io
import os
import shutil
import zipfile

from symx import core
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
OPTS = {'fixed_streams': [f'seed{i}' for i in range(0, 200)], 'pool': 'any'}
BOUNDS = {
    'quick': 'the five named datasets, downloaded from a stand-in for the network that serves a file of 25 rows (users with more than, exactly and fewer than ten rows, in any of three interleavings) with '
             'arbitrary interaction values in the format of the dataset; every sequence of up to three requests for the train, test or full part in either backend, every worker order',
    'thorough': 'sequences of four requests',
}
OUTSIDE = 'the network and the published files themselves; interrupted downloads; the draws of the split (fixed here, see C10)'

# the published formats: delimiter, folder in the archive, file, header, columns
FORMATS = {
    'ml-100k': ('\t', 'ml-100k', 'u.data', False, 4),
    'ml-1m': ('::', 'ml-1m', 'ratings.dat', False, 4),
    'ml-10m': ('::', 'ml-10M100K', 'ratings.dat', False, 4),
    'ml-20m': (',', 'ml-20m', 'ratings.csv', True, 4),
    'bx': (';', None, 'BX-Book-Ratings.csv', True, 3),
}
COLS = ['user', 'item', 'interaction', 'timestamp']


class Net:
    """serves the archive of the dataset instead of the network"""

    def __init__(self, content):
        self.content, self.calls = content, []

    def get(self, url, *a, **k):
        self.calls.append(url)
        r = type('Response', (), {})()
        r.content, r.status_code, r.ok = self.content, 200, True
        r.raise_for_status = lambda: None
        return r


def text(name, rows, delim, header):
    q = (lambda s: '"' + s + '"') if name == 'bx' else (lambda s: s)
    lines = [delim.join(q(c) for c in ('User-ID', 'ISBN', 'Book-Rating', 'ts')[:len(rows[0])])] if header else []
    lines += [delim.join(q(fmt(v)) for v in r) for r in rows]
    return '\n'.join(lines) + '\n'


def part(rows, u): return [r for r in rows if r[0] == u]


def run(ctx, names, calls, backends=('mem', 'db'), accents=False, digits=False, parts=('train', 'test', 'full')):
    from DRecPy.Dataset import integrated_datasets as I
    from DRecPy.Dataset import get_train_dataset, get_test_dataset, get_full_dataset, available_datasets
    import DRecPy
    name = ctx.choice('name', list(names))
    ctx.check(name in available_datasets(), 'a named dataset is not available')
    delim, folder, fname, header, n = FORMATS[name]
    big, exact, small = 7, 3, 5
    ids = [u for u in (big, exact, small) for _ in range({big: 12, exact: 10, small: 3}[u])]
    inter = ctx.choice('order', [0, 1, 2])
    k = {0: 1, 1: 3, 2: 7}[inter]
    ids = [ids[i * k % 25] for i in range(25)] if k != 1 else ids
    items = [f'0{i:02}34{"9" if digits else "é" if accents else "B"}' if i % 3 else f'0{i:02}34X' for i in range(25)] if name == 'bx' else [100 + i * 7 % 25 for i in range(25)]
    vals = [ctx.int(f'v{i}', 0, 10) if i in (0, 11, 24) else i % 6 for i in range(25)]
    rows = [[u, i, v, 900 - j][:n] for j, (u, i, v) in enumerate(zip(ids, items, vals))]
    cols = COLS[:n]
    home = os.path.join(os.environ['DATA_FOLDER'], name)
    shutil.rmtree(home, ignore_errors=True)
    reset_db()
    body = text(name, rows, delim, header)
    given = None
    if folder is None:
        net = Net(body.encode('latin1'))
    else:
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            z.writestr(f'{folder}/{fname}', body)
            z.writestr(f'{folder}/README', 'x')
            if name == 'ml-100k':
                given = rows[:9] + rows[20:], rows[9:20]
                z.writestr(f'{folder}/ua.base', text(name, given[0], delim, False))
                z.writestr(f'{folder}/ua.test', text(name, given[1], delim, False))
        net = Net(b.getvalue())
    old = I.requests
    I.requests = net
    try:
        seen, ctx._keep = {}, []
        for c in range(calls):
            what = ctx.choice(f'part{c}', list(parts))
            b = ctx.choice(f'backend{c}', list(backends))
            f = {'train': get_train_dataset, 'test': get_test_dataset, 'full': get_full_dataset}[what]
            ds = f(name, force_out_of_memory=b == 'db', verbose=ctx.bool(f'verbose{c}') if calls == 1 else False)
            ctx._keep.append(ds)
            if b == 'db':
                ctx.check('Database' in type(ds).__name__, 'kept in memory although an out-of-memory dataset was requested')
            ctx.check(set(ds.columns) - {'rid'} == set(cols), 'columns of the dataset')
            got = [tuple(r[x] for x in cols) for r in ds.values_list(cols)]
            if what == 'full' or given:
                want = rows if what == 'full' else given[0 if what == 'train' else 1]
                ctx.check(len(got) == len(want), f'number of rows ({what})')
                ctx.check(And(*[veq(x, y) for g, w in zip(got, want) for x, y in zip(g, w)]), f'rows ({what})')
            else:
                at = []
                for g in got:
                    j = [i for i, r in enumerate(rows) if int(g[0]) == r[0] and str(g[1]) == str(r[1])]
                    ctx.check(len(j) == 1, f'a row that is not in the dataset ({what})')
                    ctx.check(And(*[veq(x, y) for x, y in zip(g, rows[j[0]])]), f'values of a row ({what})')
                    at.append(j[0])
                ctx.check(at == sorted(set(at)), f'repeated or reordered rows ({what})')
                count = {u: sum(1 for i in at if rows[i][0] == u) for u in (big, exact, small)}
                ctx.check(count == ({big: 2, exact: 10, small: 0} if what == 'train' else {big: 10, exact: 0, small: 0}), f'number of rows of a user ({what})')
                ctx.check(seen.setdefault(what, at) == at, f'the {what} part changed between two requests')
                if 'train' in seen and 'test' in seen:
                    ctx.check(not set(seen['train']) & set(seen['test']), 'train and test part overlap')
            # what is done with a dataset does not change what the next request gives
            ds.drop([0], copy=False)
        ctx.check(len(net.calls) == 1, 'number of downloads')
    finally:
        I.requests = old
        shutil.rmtree(home, ignore_errors=True)


def unknown(ctx):
    from DRecPy.Dataset import get_train_dataset, get_test_dataset, get_full_dataset
    f = ctx.choice('f', [0, 1, 2])
    nm = ctx.choice('name', ['', 'ml', 'ml-1M', 'bx.csv'])
    _, e = attempt((get_train_dataset, get_test_dataset, get_full_dataset)[f], nm)
    ctx.check(isinstance(e, FileNotFoundError), 'an unknown dataset must be rejected')


def scenarios(tier):
    T = tier == 'thorough'
    S = lambda nm, w=2, **kw: Scenario(nm, run, kw, weight=w)
    out = [Scenario('unknown', unknown, {})]
    for n in FORMATS:
        out.append(S(f'{n}.one', names=[n], calls=1))
        out.append(S(f'{n}.two', names=[n], calls=2, backends=('mem', 'db') if T or n in ('bx', 'ml-1m') else ('mem',)))
    out.append(S('three', w=3, names=['ml-1m', 'bx'] if not T else list(FORMATS), calls=4 if T else 3, backends=('mem',), parts=('train', 'test')))
    # .db: a known finding, digits-only ids lose their leading zeros
    out.append(S('bx.digits.db', names=['bx'], calls=2, digits=True, backends=('db',)))
    out.append(S('bx.digits.mem', names=['bx'], calls=2, digits=True, backends=('mem',)))
    out.append(S('accents', names=['bx'], calls=2, accents=True))
    return out
