"""C10: leave-k-out moves exactly k rows per eligible user."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
OPTS = {'pool': 'any', 'max_draws': 40}
BOUNDS = {
    'quick': '4 rows over up to 3 users (integer or string ids) in every arrangement with arbitrary timestamps; k = 1..4 or any share in (0,1); minimum 0..4; '
             'every random draw; every task order for up to 3 users, every single pre-emption of a task at a lock or call for 2 users (in memory); each row can be chosen; verbose or not; filtered source datasets; both backends',
    'thorough': '5 rows',
}
OUTSIDE = ('more rows; shares are exact reals (double rounding of rows*share is not modelled); several pre-emptions (thorough: more than two), pre-emption of tasks on '
           'databases')


def floor(x):
    import math
    return core_floor(x) if is_sym(x) else math.floor(x)


def core_floor(x):
    from symx import core
    return core.sym_floor(x) if hasattr(core, 'sym_floor') else core.sym_int(x)


def setup(ctx, backend, n, kind, pre, pattern=None):
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=ctx.choice('opt2', [1, 4]))
    ids = {'int': [3, 1, 2], 'str': ['b', 'a', 'user'], 'odd': ['a b', 'c, d', "x'"]}[kind]
    rows = []
    for i in range(n):
        u = ids[pattern[i]] if pattern else ids[0] if i == 0 else ctx.choice(f'u{i}', ids[:min(i + 1, 3)])
        rows.append((u, (10 + i) if kind == 'int' else f'i{i}', ctx.real(f'r{i}.interaction', 0, 5), ctx.int(f'r{i}.timestamp', 0, 9)))
    ds = make_ds(ctx, backend, COLS, rows)
    m = Model(COLS, rows)
    if 'i' in pre:
        ds.assign_internal_ids()
        m = m.assign()
    if 'd' in pre:
        rid = ctx.cint('pre.rid', 0, n - 1)
        ds = ds.drop([rid])
        m = m.drop([rid])
    return ds, m


def verify(ctx, ds, m, train, test, backend, k, kmin, ratio, last):
    tr = [int(x) for x in train.values_list('rid', to_list=True)]
    te = [int(x) for x in test.values_list('rid', to_list=True)]
    ctx.check(not set(tr) & set(te), 'train and test overlap')
    users = []
    for _, r in m.rows:
        if r['user'] not in users:
            users.append(r['user'])
    for u in users:
        mine = [(i, r) for i, r in m.rows if r['user'] == u]
        c = len(mine)
        rids = [i for i, _ in mine]
        a, b = [i for i in rids if i in tr], [i for i in rids if i in te]
        want = floor(c * k) if ratio else k
        if bool(c < kmin):
            ctx.check(not a and not b, 'a user below the minimum must be removed')
            continue
        ctx.check(len(a) + len(b) == c, 'rows of an eligible user are missing')
        if bool(And(want > 0, c > want)):
            ctx.check(len(b) == want, 'number of test rows of a user')
            if last:
                for i in b:
                    for j in a:
                        ctx.check(dict(mine)[i]['timestamp'] >= dict(mine)[j]['timestamp'], 'test rows must have the last timestamps')
        else:
            ctx.check(not b, 'a user without enough rows must stay in train')
    check_model(ctx, train, m.drop(tr, keep=True), backend, 'train')
    check_model(ctx, test, m.drop(te, keep=True), backend, 'test')
    check_model(ctx, ds, m, backend, 'source dataset', proj=False)


def run(ctx, backend, n, kind='int', pre='', ratio=False, last=None, verbose=None, pattern=None, kmax=None):
    from DRecPy.Evaluation.Splits import leave_k_out
    ds, m = setup(ctx, backend, n, kind, pre, pattern)
    if ratio:
        k = ctx.real('k', 0, 1)
        ctx.assume(And(k > 0, k < 1))
        arg = k
    else:
        k = arg = ctx.cint('k', 1, kmax or n)
    kmin = ctx.cint('min', 0, n) if kmax is None else ctx.choice('min', [0, 2])
    verb = ctx.bool('verbose') if verbose is None else verbose
    if last:
        rows = [r for _, r in m.rows]
        asc = And(*[Implies(a['user'] == b['user'], a['timestamp'] <= b['timestamp']) for i, a in enumerate(rows) for b in rows[i + 1:]])
        ctx.assume(asc if last == 'asc' else Not(asc))
    kw = {'last_timestamps': True} if last else {}
    train, test = leave_k_out(ds, k=arg, min_user_interactions=kmin, seed=0, max_concurrent_threads=2, verbose=verb, **kw)
    verify(ctx, ds, m, train, test, backend, k, kmin, ratio, last)
    if pattern:
        for i in test.values_list('rid', to_list=True):
            ctx.cover(f'row {int(i)} is chosen')


def run_args(ctx, backend):
    from DRecPy.Evaluation.Splits import leave_k_out
    ds, m = setup(ctx, backend, 2, 'int', '')
    kind = ctx.choice('kind', ['k0', 'kneg', 'kratio', 'threads'])
    if kind == 'kratio':
        k = ctx.real('k', 1, 5)
        kw = dict(k=k)
    elif kind == 'threads':
        kw = dict(max_concurrent_threads=ctx.int('t', -2, 0))
    else:
        kw = dict(k=ctx.int('k', -3, 0))
    _, err = attempt(leave_k_out, ds, verbose=False, **kw)
    ctx.check(err is not None, 'invalid parameters must be rejected')


def scenarios(tier):
    T = tier == 'thorough'
    n = 5 if T else 4
    out = []
    pre = dict(preempt=2 if T else 1)
    out.append(Scenario('pre.fixed', run, dict(backend='mem', n=4, pattern=[0, 1, 0, 1], kmax=2, verbose=False), weight=3, opts=pre))
    out.append(Scenario('pre.verbose', run, dict(backend='mem', n=3, pattern=[0, 1, 0], kmax=1, verbose=True), weight=2, opts=pre))
    out.append(Scenario('pre.ratio', run, dict(backend='mem', n=4, pattern=[0, 1, 0, 1], kmax=1, ratio=True, verbose=False), weight=2, opts=pre))
    out.append(Scenario('pre.last', run, dict(backend='mem', n=4, pattern=[0, 1, 0, 1], kmax=1, last='asc', verbose=False), weight=2, opts=pre))
    for b in ('mem', 'db'):
        nb = n if b == 'mem' else n - 1
        out.append(Scenario(f'{b}.fixed', run, dict(backend=b, n=nb), weight=3))
        out.append(Scenario(f'{b}.ratio', run, dict(backend=b, n=nb, ratio=True, verbose=False), weight=2))
        out.append(Scenario(f'{b}.str', run, dict(backend=b, n=3, kind='str', verbose=True), weight=2))
        out.append(Scenario(f'{b}.filtered', run, dict(backend=b, n=3, pre='id', verbose=False), weight=2))
        out.append(Scenario(f'{b}.last', run, dict(backend=b, n=3, last='asc', verbose=False), weight=2))
        out.append(Scenario(f'{b}.last.ratio', run, dict(backend=b, n=3, last='asc', ratio=True, verbose=False)))
        out.append(Scenario(f'{b}.args', run_args, dict(backend=b)))
        out.append(Scenario(f'{b}.choice', run, dict(backend=b, n=4, pattern=[0, 1, 0, 0], kmax=1, verbose=False), goals=[f'row {i} is chosen' for i in (0, 2, 3)]))
        out.append(Scenario(f'{b}.odd', run, dict(backend=b, n=2, kind='odd')))
        # known finding
        out.append(Scenario(f'{b}.unordered', run, dict(backend=b, n=3, last='desc', verbose=False)))
    return out
