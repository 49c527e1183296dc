"""C05: interaction vectors contain exactly the current interactions."""
from symx import core
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
INT = {'user': ('cint', 1, 2), 'item': ('cint', 5, 6), 'interaction': ('real', -9, 9), 'timestamp': ('int', -9, 9)}
INTI = dict(INT, interaction=('int', -9, 9))
STR = dict(INT, user=('str', ['b', 'a']), item=('str', ['y', 'x']))
BOUNDS = {
    'quick': '3 rows over 2 users x 2 items in every arrangement (single user, duplicate pairs) with arbitrary interaction values; every pair of vector '
             'requests around one in-place change (transform, filter, drop, reassignment), cache limits 0/1/1000; every request order; with matrices that fit in memory or not',
    'thorough': '4 rows over 3 users x 3 items, two changes',
}
OUTSIDE = 'vectors that do not even fit in memory on their own; vectors of ids that only occur in filtered-out rows'


def expect(m, axis, k):
    """position -> sum of the interaction values"""
    out = {}
    a, b = ('uid', 'iid') if axis == 'user' else ('iid', 'uid')
    for _, r in m.rows:
        if r[a] == k:
            out[r[b]] = out.get(r[b], 0) + r['interaction']
    return out


def one(ctx, ds, m, axis, k, msg):
    v = ds.select_user_interaction_vec(k) if axis == 'user' else ds.select_item_interaction_vec(k)
    ctx.check(v.shape[0] == 1, f'{msg}: one row')
    xs = vec(v)
    want = expect(m, axis, k)
    size = max(r['iid' if axis == 'user' else 'uid'] for _, r in m.rows) + 1
    ctx.check(len(xs) == size, f'{msg}: vector length')
    ctx.check(And(*[close(x, want.get(j, 0)) for j, x in enumerate(xs)]), f'{msg}: entries')


def all_vecs(ctx, ds, m, msg, items_first=False):
    for axis, c in (('item', 'iid'), ('user', 'uid')) if items_first else (('user', 'uid'), ('item', 'iid')):
        for k in sorted({r[c] for _, r in m.rows}):
            one(ctx, ds, m, axis, k, f'{msg} ({axis})')


def change(ctx, ds, m, name, short):
    kind = ctx.choice(name, ['app', 'sel', 'usr', 'drop', 'assign', 'none', 'ts', 'copyapp', 'copysel'] if not short else ['app', 'usr', 'drop', 'assign'])
    if kind == 'app':
        d = ctx.real(name + '.d', -9, 9)
        ds.apply('interaction', lambda x: x * 2 + d)
        m = m.apply('interaction', lambda x: x * 2 + d)
    elif kind == 'sel':
        v = ctx.int(name + '.v', -3, 3)
        ds.select(f'interaction >= {lit(v)}', copy=False)
        m = m.select([('interaction', '>=', v)])
    elif kind == 'usr':
        u = m.rows[0][1]['user']
        ds.select(f'user != {lit(u)}', copy=False)
        m = m.select([('user', '!=', u)])
    elif kind == 'drop':
        rid = ctx.choice(name + '.rid', [i for i, _ in m.rows])
        ds.drop([rid], copy=False)
        m = m.drop([rid])
    elif kind == 'assign':
        ds.assign_internal_ids()
        m = m.assign()
    elif kind == 'ts':
        ds.apply('timestamp', lambda x: x + 1)
        m = m.apply('timestamp', lambda x: x + 1)
    elif kind == 'copyapp':
        c = ds.copy()
        c.apply('interaction', lambda x: x + 1)
        all_vecs(ctx, c, m.apply('interaction', lambda x: x + 1), 'changed copy')
    elif kind == 'copysel':
        u = m.rows[0][1]['user']
        c = ds.select(f'user == {lit(u)}')
        all_vecs(ctx, c, m.select([('user', '==', u)]), 'filtered copy')
    return m


def no_memory(ctx, on):
    """matrices of several rows do not fit in memory"""
    import sys
    mod = sys.modules['DRecPy.Dataset.mem_dataset']
    if not hasattr(mod, 'csr_matrix'):
        core.raise_unsupported('matrix constructor not found')
    if not on:
        if hasattr(mod.csr_matrix, 'orig'):
            mod.csr_matrix = mod.csr_matrix.orig
        return
    no_memory(ctx, False)
    orig = mod.csr_matrix

    def small(arg, shape=None, **kw):
        if shape is None or shape[0] > 1:
            raise MemoryError
        return orig(arg, shape=shape, **kw)
    small.orig = orig
    mod.csr_matrix = small


def run(ctx, backend, n, spec, changes, lim=(1000,), short=False, nomem=False):
    if nomem:
        no_memory(ctx, True)
        try:
            return run(ctx, backend, n, spec, changes, lim, short)
        finally:
            no_memory(ctx, False)

    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        k = ctx.choice('limits', lim)
        db_tune(_opt2_n_direct_interactions_threshold=1 if k else 4, _default_user_vec_cache_limit=k, _default_item_vec_cache_limit=k)
    # which id comes first does not matter: fix the first row's ids to the larger ones (row order differs from the order of the ids)
    first = dict(spec, **{c: ('const', spec[c][1][0] if spec[c][0] == 'str' else spec[c][2]) for c in ('user', 'item')})
    rows = symrows(ctx, 1, COLS, first, 'f') + symrows(ctx, n - 1, COLS, spec)
    ds = make_ds(ctx, backend, COLS, rows)
    for fn in (ds.select_user_interaction_vec, ds.select_item_interaction_vec):
        _, err = attempt(fn, 0)
        ctx.check(err is not None, 'vectors need internal ids')
    ds.assign_internal_ids()
    m = Model(COLS, rows).assign()
    _, err = attempt(ds.select_user_interaction_vec, len(m.umap))
    ctx.check(err is not None, 'unknown user id must raise')
    _, err = attempt(ds.select_item_interaction_vec, len(m.imap))
    ctx.check(err is not None, 'unknown item id must raise')
    for k in range(changes):
        axis = ctx.choice(f'axis{k}', ['user', 'item', 'all'] if not short else ['all', 'user'])
        if axis == 'all':
            all_vecs(ctx, ds, m, 'before the change')
            all_vecs(ctx, ds, m, 'requested again')
        else:
            c = 'uid' if axis == 'user' else 'iid'
            one(ctx, ds, m, axis, ctx.choice(f'k{k}', sorted({r[c] for _, r in m.rows})), f'one {axis}')
        m = change(ctx, ds, m, f'ch{k}', short)
        if not m.rows:
            ctx.prune('empty')
    all_vecs(ctx, ds, m, 'after the change', ctx.bool('items first'))
    if ctx.bool('reassign'):
        ds.assign_internal_ids()
        m = m.assign()
        all_vecs(ctx, ds, m, 'after reassigning ids')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    out = []
    out.append(Scenario('mem.nomem', run, dict(backend='mem', n=n, spec=INT, changes=1, nomem=True, short=not T)))
    for b in ('mem', 'db'):
        out.append(Scenario(f'{b}.int', run, dict(backend=b, n=n, spec=INT, changes=1, lim=[0, 1000]), weight=3))
        out.append(Scenario(f'{b}.str', run, dict(backend=b, n=2, spec=STR, changes=1)))
        out.append(Scenario(f'{b}.intval', run, dict(backend=b, n=2, spec=INTI, changes=1, lim=[1])))
        out.append(Scenario(f'{b}.two', run, dict(backend=b, n=3 if T else 2, spec=INT, changes=2, short=True, lim=[1])))
    return out
