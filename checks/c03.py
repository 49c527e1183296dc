"""C03: datasets derived from one another never affect each other."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
COLS = ['user', 'item', 'interaction', 'timestamp']
SPEC = {'user': ('seq', [1, 2, 1]), 'item': ('seq', [1, 1, 2]), 'interaction': ('real', -9, 9), 'timestamp': ('int', -9, 9)}
SPEC_S = {'user': ('seq', ['a', 'b', 'a']), 'item': ('seq', ['x', 'x', 'y']), 'interaction': ('real', -9, 9), 'timestamp': ('int', -9, 9)}
BOUNDS = {
    'quick': '3 rows with arbitrary interaction/timestamp values; every history of 3 operations (database: 3 after a fixed first derivation) out of 14 '
             'kinds over the family of derived datasets, every target; compaction after 1 or 4 direct uses; partially read iterators; close/collection',
    'thorough': 'histories of 4 operations (5 counting the first derivation) within the time budget',
}
OUTSIDE = ('longer histories; writing to a database file while another dataset of the same file has a partially read iterator (sqlite reports '
           '"database is locked" on the real stack, such histories are excluded); transformations of empty or projected datasets')

OPS3 = ['copy', 'selC', 'selI', 'dropC', 'dropI', 'uniq', 'app', 'appT', 'assign', 'remove', 'read', 'iter', 'close', 'forget']
INPLACE = {'selI', 'dropI', 'app', 'appT', 'assign', 'remove'}


class Live:
    def __init__(self, ds, m):
        self.ds, self.m, self.v = ds, m, 0
        self.its = []


def allowed(op, l):
    m = l.m
    full = 'user' in m.cols and 'item' in m.cols and 'interaction' in m.cols
    if op == 'uniq':
        return 'user' in m.cols and len(m.cols) > 1
    if op in ('app', 'assign', 'remove'):
        return full and len(m.rows) > 0
    if op == 'appT':
        return full and len(m.rows) > 0 and l.__dict__.get('ts', 0) == 0
    if op in ('selC', 'selI'):
        return 'user' in m.cols
    if op in ('iter', 'dropI', 'dropC'):
        return len(m.rows) > 0
    return True


def step(ctx, k, live, ops, sel):
    t = ctx.cint(f'{k}.t', 0, len(live) - 1) if len(live) > 1 else 0
    op = ctx.choice(f'{k}.op', ops)
    l = live[t]
    if not allowed(op, l) or (op in ('close', 'forget') and len(live) < 2):
        ctx.prune('not applicable')
    ds, m = l.ds, l.m
    new = None
    if op in ('selC', 'selI'):
        if sel == 'sym' and 'interaction' in m.cols:
            v = ctx.int(f'{k}.v', -3, 3)
            cond, q = [('interaction', '>=', v)], f'interaction >= {lit(v)}'
        else:
            u = m.rows[0][1]['user'] if m.rows else live[0].m.rows[0][1]['user'] if live[0].m.rows else 1
            cond, q = [('user', '==', u)], f'user == {lit(u)}'
        r = ds.select(q, copy=op == 'selC')
        if op == 'selC':
            new = (r, m.select(cond))
        else:
            l.m = m.select(cond)
    elif op in ('dropC', 'dropI'):
        rid = m.rows[0][0]
        r = ds.drop([rid], copy=op == 'dropC')
        if op == 'dropC':
            new = (r, m.drop([rid]))
        else:
            l.m = m.drop([rid])
    elif op == 'copy':
        new = (ds.copy(), m.copy())
    elif op == 'uniq':
        new = (ds.unique(['user']), m.unique(['user']))
    elif op == 'app':
        d = ctx.real(f'{k}.d', -9, 9)
        ds.apply('interaction', lambda x: x + d)
        l.m = m.apply('interaction', lambda x: x + d)
    elif op == 'appT':
        ds.apply('timestamp', lambda x: x / 2)
        l.m = m.apply('timestamp', lambda x: x / 2)
        l.ts = 1
    elif op == 'assign':
        ds.assign_internal_ids()
        l.m = m.assign()
    elif op == 'remove':
        ds.remove_internal_ids()
        l.m = m.remove()
    elif op == 'read':
        ctx.check(len(ds.values_list()) == len(m.rows), 'reading: number of rows')
    elif op == 'iter':
        it = ds.values()
        first = next(it)
        l.its.append((it, first, l.m.copy(), l.v))
    elif op == 'close':
        live.remove(l)
        if hasattr(ds, 'close'):
            ds.close()
    elif op == 'forget':
        live.remove(l)
        ctx._keep.remove(ds)
        for it, *_ in l.its:
            if hasattr(it, 'close'):
                it.close()
        l.its.clear()
        l.ds = None
        del ds
        import gc
        gc.collect()
    if op in INPLACE:
        l.v += 1
    if new is not None:
        n = Live(*new)
        n.ts = l.__dict__.get('ts', 0)
        live.append(n)
        ctx._keep.append(new[0])


def run(ctx, backend, length, first=(), ops=OPS3, sel='conc', spec=SPEC, n=3, ids=False):
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        t = ctx.choice('opt', ['direct1', 'direct4', 'ratio'])
        if t == 'direct1':
            db_tune(_opt2_n_direct_interactions_threshold=1)
        elif t == 'ratio':
            db_tune(_opt_n_rows_threshold=1, _opt_n_query_threshold=1, _opt_ratio_threshold=1)
    rows = symrows(ctx, n, COLS, spec)
    ds = make_ds(ctx, backend, COLS, rows)
    m = Model(COLS, rows)
    if ids:
        ds.assign_internal_ids()
        m = m.assign()
    live = [Live(ds, m)]
    ctx._keep = [ds]
    try:
        for j, op in enumerate(first):
            step(ctx, f'p{j}', live, [op], sel)
        for k in range(length):
            step(ctx, f's{k}', live, ops, sel)
    except Exception as e:
        ctx._alive()
        if 'locked' in str(e) and any(l.its for l in live):
            ctx.prune('a partially read iterator keeps the database locked')
        raise
    for l in live:
        for it, got, snap, v in l.its:
            if l.v != v:
                if hasattr(it, 'close'):
                    it.close()
                continue
            recs = [got] + list(it)
            want = dict(snap.rows)
            ctx.check(sorted(int(r['rid']) for r in recs) == sorted(want), 'an iterator over an unchanged dataset yields its rows')
            for r in recs:
                w = want[int(r['rid'])]
                ctx.check(And(*[veq(r[c], w[c]) for c in snap.cols]), 'an iterator over an unchanged dataset yields its values')
    for l in live:
        check_model(ctx, l.ds, l.m, backend, 'after the history', proj=False)
    for l in live:
        check_model(ctx, l.ds, l.m, backend, 'after the history, read again', proj=True)
        if l.m.ids:
            for _, r in l.m.rows:
                if 'user' in r and 'uid' in r:
                    ctx.check(And(veq(l.ds.user_to_uid(r['user']), r['uid']), veq(l.ds.iid_to_item(r['iid']), r['item'])),
                              'id conversion after the history')


def scenarios(tier):
    T = tier == 'thorough'
    L = 3 if T else 2
    out = []
    noit = [o for o in OPS3 if o not in ('iter',)]
    out.append(Scenario('mem', run, dict(backend='mem', length=L + 1), weight=2))
    out.append(Scenario('mem.sym', run, dict(backend='mem', length=L, sel='sym')))
    out.append(Scenario('db.any', run, dict(backend='db', length=L), weight=1))
    for f in ('copy', 'selC', 'dropC', 'uniq'):
        out.append(Scenario(f'db.{f}', run, dict(backend='db', length=L, first=(f,)), weight=2))
    for f in ('copy', 'selC'):
        out.append(Scenario(f'db.{f}.ids', run, dict(backend='db', length=L, first=(f,), ids=True), weight=2))
        out.append(Scenario(f'db.{f}.iter', run, dict(backend='db', length=L, first=(f, 'iter')), weight=1))
        out.append(Scenario(f'db.{f}.str', run, dict(backend='db', length=L - 1, first=('assign', f,), spec=SPEC_S), weight=1))
    out.append(Scenario('db.sym', run, dict(backend='db', length=L, sel='sym', ops=['copy', 'selC', 'selI', 'dropI', 'app', 'assign', 'read'])))
    return out
