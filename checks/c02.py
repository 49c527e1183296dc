"""C02: drop/keep, unique, count_unique, min/max, len and projections are exact."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
NUM = {'user': ('int', 1, 9), 'item': ('int', 1, 9), 'interaction': ('real', -9, 9), 'timestamp': ('int', -9, 9)}
SMALL = dict(NUM, user=('int', 1, 2), item=('int', 1, 2))
STR = dict(NUM, user=('str', ['a', 'b']), item=('str', ['x', 'y']), interaction=('int', 0, 9))
STR_S = dict(STR, item=('seq', ['x', 'y']))
# values of different rows that look alike when written one after the other
ALIKE = dict(NUM, user=('seq', [1, 11, 1]), item=('seq', [11, 1, 11]), interaction=('int', 0, 3))
ALIKE_S = dict(ALIKE, user=('seq', ['a', 'ab', 'a,b']), item=('seq', ['bx', 'x', 'x']))
BOUNDS = {
    'quick': '3 rows (arbitrary numbers in the ranges, or string ids), on the full dataset or after a filter / internal id assignment / '
             'earlier drop; id lists of up to 2 entries incl. repeated and unknown ids; every column combination of size 1-2',
    'thorough': '4 rows, id lists of up to 3 entries, column combinations of size 1-3',
}
OUTSIDE = 'larger datasets; deduplicating with the record id among the columns (backends differ, undocumented); min/max of empty datasets'


def prepare(ctx, backend, n, spec, pre):
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=ctx.choice('opt2', [1, 4]))
    rows = symrows(ctx, n, COLS, spec)
    ds = make_ds(ctx, backend, COLS, rows)
    m = Model(COLS, rows)
    if 'i' in pre:
        ds.assign_internal_ids()
        m = m.assign()
    if 's' in pre:
        v = ctx.int('pre.v', -3, 3)
        ds = ds.select(f'interaction >= {lit(v)}')
        m = m.select([('interaction', '>=', v)])
    if 'd' in pre:
        k = ctx.cint('pre.rid', 0, n - 1)
        ds = ds.drop([k])
        m = m.drop([k])
    return ds, m


def run_drop(ctx, backend, n, spec, pre, k):
    ds, m = prepare(ctx, backend, n, spec, pre)
    rids = [ctx.cint(f'rid{j}', -1, n) for j in range(ctx.cint('len', 0, k))]
    keep = ctx.bool('keep')
    copy = ctx.bool('copy')
    arg = list(rids)
    res = ds.drop(arg, copy=copy, keep=keep)
    ctx.check(arg == rids, 'drop changed its argument')
    ctx.check((res is ds) == (not copy), 'drop: copy flag not honoured')
    check_model(ctx, res, m.drop(rids, keep), backend, 'drop')
    if copy:
        check_model(ctx, ds, m, backend, 'drop: source dataset', proj=False)


def run_unique(ctx, backend, n, spec, pre, size):
    ds, m = prepare(ctx, backend, n, spec, pre)
    names = [c for c in m.cols]
    combos = [[c] for c in names]
    if size > 1:
        combos += [[a, b] for i, a in enumerate(names) for b in names[i + 1:] if a in ('user', 'uid', 'interaction')]
        combos += [['item', 'user']]
    if size > 2:
        combos += [['user', 'item', 'interaction']]
    cols = ctx.choice('cols', combos)
    copy = ctx.bool('copy')
    arg = list(cols)
    if len(cols) == 1 and ctx.bool('plain'):
        arg = cols[0]
    ctx.check(ds.count_unique(arg) == len(m.unique(cols).rows), 'count_unique differs from the number of distinct combinations')
    ctx.check(arg == cols or arg == cols[0], 'count_unique changed its argument')
    res = ds.unique(arg, copy=copy)
    ctx.check(arg == cols or arg == cols[0], 'unique changed its argument')
    ctx.check((res is ds) == (not copy), 'unique: copy flag not honoured')
    u = m.unique(cols)
    check_model(ctx, res, u, backend, 'unique')
    for _ in range(2):
        ctx.check(len(res.values_list(cols[0], to_list=True)) == len(u.rows), 'unique: repeated reading')
    ctx.check(res.count_unique(cols[0]) == len(u.unique([cols[0]]).rows), 'unique: counting in the result')
    if copy:
        check_model(ctx, ds, m, backend, 'unique: source dataset', proj=False)


def run_agg(ctx, backend, n, spec, pre):
    ds, m = prepare(ctx, backend, n, spec, pre)
    col = ctx.choice('col', m.cols + ['rid'])
    ctx.check(len(ds) == len(m.rows), 'len')
    if m.rows:
        vals = [i if col == 'rid' else r[col] for i, r in m.rows]
        mx, mn = ds.max(col), ds.min(col)
        if isinstance(vals[0], str):
            ctx.check(mx == max(vals) and mn == min(vals), 'min/max of a text column')
        else:
            ctx.check(And(Or(*[veq(mx, v) for v in vals]), *[v <= mx for v in vals]), 'max is not the largest value')
            ctx.check(And(Or(*[veq(mn, v) for v in vals]), *[v >= mn for v in vals]), 'min is not the smallest value')
    other = ctx.choice('col2', [c for c in m.cols + ['rid'] if c != col][:3])
    one = ds.values_list(col, to_list=True)
    ctx.check(len(one) == len(m.rows), 'projection: number of values')
    two = ds.values_list([other, col], to_list=True)
    dct = list(ds.values([other, col]))
    ctx.check(len(two) == len(m.rows) and len(dct) == len(m.rows), 'projection: number of rows')
    byrid = ds.values_list([col, 'rid'] if col != 'rid' else [other, 'rid'], to_list=True)
    c0 = col if col != 'rid' else other
    for v, rid in byrid:
        want = dict(m.rows)[int(rid)]
        ctx.check(veq(v, want[c0]), 'projection: value of another row')
    # the single-column projection is the same rows in the same order as the two-column one
    for a, (b, c), d in zip(one, two, dct):
        ctx.check(And(veq(a, c), veq(d[other], b), veq(d[col], c), len(d) == 2), 'projections disagree')
    _, err = attempt(ds.max, 'nope')
    ctx.check(err is not None, 'max of an unknown column must raise')
    _, err = attempt(ds.values_list, ['user', 'nope'])
    ctx.check(err is not None, 'projecting an unknown column must raise')
    check_model(ctx, ds, m, backend, 'reading changed the dataset')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    out = []
    for b in ('mem', 'db'):
        for pre in ('', 's', 'i', 'is', 'd'):
            w = 1
            out.append(Scenario(f'{b}.drop.{pre or "plain"}', run_drop, dict(backend=b, n=n if 'i' not in pre else 2, spec=SMALL, pre=pre, k=3 if T else (2 if pre in ('', 'd') else 1)), weight=w))
            out.append(Scenario(f'{b}.agg.{pre or "plain"}', run_agg, dict(backend=b, n=n if 'i' not in pre else 2, spec=SMALL, pre=pre), weight=w))
            out.append(Scenario(f'{b}.unique.{pre or "plain"}', run_unique, dict(backend=b, n=n if 'i' not in pre else 2, spec=SMALL, pre=pre, size=3 if T else 2), weight=w))
        out.append(Scenario(f'{b}.unique.str', run_unique, dict(backend=b, n=2, spec=STR_S, pre='', size=2)))
        out.append(Scenario(f'{b}.unique.alike', run_unique, dict(backend=b, n=3, spec=ALIKE, pre='', size=3)))
        out.append(Scenario(f'{b}.unique.alike.str', run_unique, dict(backend=b, n=2, spec=ALIKE_S, pre='', size=3)))
        out.append(Scenario(f'{b}.agg.str', run_agg, dict(backend=b, n=2, spec=STR_S, pre='')))
        out.append(Scenario(f'{b}.drop.str', run_drop, dict(backend=b, n=2, spec=STR_S, pre='s', k=1)))
    return out
