"""C11: random and matrix splits partition the rows as specified."""
import itertools
from symx.kit import *
from checks.c10 import floor, setup as base_setup

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
OPTS = {'pool': 'any', 'max_draws': 40}
BOUNDS = {
    'quick': 'random: up to 5 rows, any share in (0,1), every draw, plain or filtered source; matrix: 3 rows over up to 3 users and 3 items, '
             'integer or string ids, in every arrangement, any user/item share in (0,1], minimum 0..4, every draw, every task order, every single pre-emption of a task at a lock or call for 2 users (in memory); each row can be chosen; verbose or not; both backends',
    'thorough': '7 rows (random), 4 rows over 3 users and 3 items (matrix)',
}
OUTSIDE = ('more rows; shares are exact reals (double rounding of rows*share is not modelled); several pre-emptions (thorough: more than two), pre-emption of tasks on databases')


def partition(ctx, ds, m, train, test, backend, removed=()):
    tr = [int(x) for x in train.values_list('rid', to_list=True)]
    te = [int(x) for x in test.values_list('rid', to_list=True)]
    ctx.check(not set(tr) & set(te), 'train and test overlap')
    check_model(ctx, train, m.drop(tr, keep=True), backend, 'train')
    check_model(ctx, test, m.drop(te, keep=True), backend, 'test')
    check_model(ctx, ds, m, backend, 'source dataset', proj=False)
    return tr, te


def random(ctx, backend, n, pre=''):
    from DRecPy.Evaluation.Splits import random_split
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=ctx.choice('opt2', [1, 4]))
    rows = [(i % 2, 10 + i, ctx.real(f'r{i}.interaction', 0, 5), 3) for i in range(n)]
    ds, m = make_ds(ctx, backend, COLS, rows), Model(COLS, rows)
    if 'i' in pre:
        ds.assign_internal_ids()
        m = m.assign()
    if 'd' in pre:
        rid = ctx.cint('pre.rid', 0, n - 1)
        ds, m = ds.drop([rid]), m.drop([rid])
    ratio = ctx.real('ratio', -1, 2)
    res, err = attempt(random_split, ds, test_ratio=ratio, seed=ctx.cint('seed', 0, 1), verbose=ctx.bool('verbose'))
    want = floor(len(m.rows) * ratio)
    if not bool(And(ratio > 0, ratio < 1)) or bool(want == 0):
        ctx.check(err is not None, 'a share out of (0,1) or selecting no row must be rejected')
        return
    ctx.check(err is None, f'split failed: {type(err).__name__}')
    tr, te = partition(ctx, ds, m, res[0], res[1], backend)
    ctx.check(len(te) == want, 'number of test rows')
    ctx.check(len(tr) + len(te) == len(m.rows), 'rows are missing')
    for i in te:
        ctx.cover(f'row {i} is chosen')
    ctx.cover(f'{len(te)} of {len(m.rows)} rows')


def matrix(ctx, backend, n, kind='int', pre='', users=3, items=3, kmin=None, verbose=False, pattern=None):
    from DRecPy.Evaluation.Splits import matrix_split
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=1)
    us = ([3, 10, 2] if kind == 'int' else ['b, c', 'a b', 'user'])[:users]
    its = ([12, 10, 3] if kind == 'int' else ['x', 'item', 'a'])[:items]
    rows, nu, ni = [], 0, 0
    for i in range(n):
        a = pattern[i][0] if pattern else ctx.cint(f'u{i}', 0, min(nu, users - 1))
        b = pattern[i][1] if pattern else ctx.cint(f'i{i}', 0, min(ni, items - 1))
        nu, ni = max(nu, a + 1), max(ni, b + 1)
        rows.append((us[a], its[b], ctx.real(f'r{i}.interaction', 0, 5), i))
    ds, m = make_ds(ctx, backend, COLS, rows), Model(COLS, rows)
    if 'i' in pre:
        ds.assign_internal_ids()
        m = m.assign()
    if 'd' in pre:
        rid = ctx.cint('pre.rid', 0, n - 1)
        ds, m = ds.drop([rid]), m.drop([rid])
    U = distinct([r['user'] for _, r in m.rows])
    I = distinct([r['item'] for _, r in m.rows])
    ur, ir = ctx.real('ur', 0, 1), ctx.real('ir', 0, 1)
    ctx.assume(And(ur > 0, ir > 0))
    mi = ctx.cint('min', 0, n) if kmin is None else kmin
    train, test = matrix_split(ds, user_test_ratio=ur, item_test_ratio=ir, min_user_interactions=mi, seed=0, max_concurrent_threads=2, verbose=verbose)
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    tr, te = partition(ctx, ds, m, train, test, backend)
    of = {u: [i for i, r in m.rows if r['user'] == u] for u in U}
    small = {u for u in U if len(of[u]) < mi}
    gone = {i for u in small for i in of[u]}
    all_ = {i for i, _ in m.rows}
    ctx.check(not gone & (set(tr) | set(te)), 'users below the minimum must be removed')
    ctx.check(set(tr) | set(te) == all_ - gone, 'rows are missing')
    fu, fi = int(floor(len(U) * ur)), int(floor(len(I) * ir))
    # is there a sample of fu users and fi items which explains the test set?
    item = {i: r['item'] for i, r in m.rows}
    ok = False
    for cu in itertools.combinations(U, fu):
        for ci in itertools.combinations(I, fi):
            want = set()
            for u in cu:
                if u in small:
                    continue
                mv = [i for i in of[u] if item[i] in ci]
                if len(mv) < len(of[u]):
                    want |= set(mv)
            ok = ok or want == set(te)
    for i in te:
        ctx.cover(f'row {i} is chosen')
    ctx.check(ok, 'the test set is not the block of any sample of the requested shares of users and items')


GRID = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]


def args(ctx, backend):
    from DRecPy.Evaluation.Splits import matrix_split
    rows = [(1, 1, 1.0, 1), (2, 2, 1.0, 1)]
    ds = make_ds(ctx, backend, COLS, rows)
    ur, ir, t = ctx.real('ur', -1, 2), ctx.real('ir', -1, 2), ctx.int('t', -1, 1)
    bad = Or(ur <= 0, ur > 1, ir <= 0, ir > 1, t <= 0)
    _, err = attempt(matrix_split, ds, user_test_ratio=ur, item_test_ratio=ir, max_concurrent_threads=t, verbose=False)
    if bool(bad):
        ctx.check(err is not None, 'invalid parameters must be rejected')
    else:
        ctx.check(err is None, 'valid parameters were rejected')


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    pre = dict(preempt=2 if T else 1)
    out.append(Scenario('pre.matrix', matrix, dict(backend='mem', n=4, users=2, items=2, kmin=1, pattern=GRID), weight=3, opts=pre))
    out.append(Scenario('pre.matrix.min', matrix, dict(backend='mem', n=3, users=2, items=2, kmin=2, pattern=GRID, verbose=True), weight=2, opts=pre))
    for b in ('mem', 'db'):
        n = (7 if T else 5) if b == 'mem' else (5 if T else 4)
        out.append(Scenario(f'{b}.random', random, dict(backend=b, n=n), weight=2, goals=[f'row {i} is chosen' for i in range(n)]))
        out.append(Scenario(f'{b}.matrix.choice', matrix, dict(backend=b, n=6, users=3, items=2, kmin=0, pattern=GRID), goals=[f'row {i} is chosen' for i in range(6)]))
        out.append(Scenario(f'{b}.random.filtered', random, dict(backend=b, n=n - 1, pre='id')))
        out.append(Scenario(f'{b}.matrix', matrix, dict(backend=b, n=4 if T else 3, kmin=None if T else 0), weight=4))
        out.append(Scenario(f'{b}.matrix.min', matrix, dict(backend=b, n=4 if T else 3, users=2, items=2, verbose=True), weight=3))
        out.append(Scenario(f'{b}.matrix.str', matrix, dict(backend=b, n=3, kind='str', kmin=1, users=2, items=3 if T else 2, verbose=True)))
        out.append(Scenario(f'{b}.matrix.filtered', matrix, dict(backend=b, n=4 if T else 3, pre='id', kmin=1, items=3 if T else 2), weight=2))
        out.append(Scenario(f'{b}.matrix.args', args, dict(backend=b)))
    return out
