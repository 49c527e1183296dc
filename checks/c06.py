"""C06: both storage backends give the same answers."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
COLS = ['user', 'item', 'interaction', 'timestamp']
INT = {'user': ('cint', 1, 2), 'item': ('cint', 5, 6), 'interaction': ('real', -9, 9), 'timestamp': ('int', -9, 9)}
# the ids of different rows look alike when written one after the other
FIX = dict(INT, user=('seq', [11, 1, 11]), item=('seq', [1, 11, 11]))
STR = dict(INT, user=('seq', ['ba', 'b', 'ba']), item=('seq', ['x', 'ax', 'ax']))
BOUNDS = {
    'quick': '3 rows with arbitrary numeric values loaded from the same file into both backends; every history of 3 operations (2 with '
             'value-dependent filters) out of 12; full comparison of contents, counts, extremes, lookups, id conversions, vectors and error behaviour',
    'thorough': 'histories of 4 operations within the time budget, free user/item ids',
}
OUTSIDE = 'row order; deduplication with the record id among the columns; mappings of ids that only occur in filtered-out rows; values beyond double precision'
OPS6 = ['sel', 'selI', 'selTs', 'drop', 'dropI', 'keep', 'uniq', 'app', 'appF', 'appS', 'assign', 'remove', 'copy']


def num(v):
    return v.item() if hasattr(v, 'item') and not is_sym(v) else v


def compare(ctx, a, b, msg):
    """a: in memory, b: database"""
    ctx.check(sorted(a.columns) == sorted(b.columns), f'{msg}: columns')
    ctx.check(len(a) == len(b), f'{msg}: number of rows')
    ra, rb = rid_rows(a), rid_rows(b)
    ctx.check(sorted(ra) == sorted(rb), f'{msg}: record ids')
    for i, r in ra.items():
        ctx.check(set(r) == set(rb[i]), f'{msg}: record columns')
        ctx.check(And(*[veq(r[c], rb[i][c]) for c in r]), f'{msg}: row values')
    ctx.check(a.has_internal_ids == b.has_internal_ids, f'{msg}: internal ids flag')
    return ra


def ask(ctx, a, b, rows, msg, full):
    """the same questions to both"""
    cols = [c for c in a.columns if c != 'rid']
    for c in a.columns:
        if not full and c in ('interaction', 'timestamp'):
            continue
        if rows:
            ctx.check(And(veq(a.max(c), b.max(c)), veq(a.min(c), b.min(c))), f'{msg}: extremes of a column')
        if c != 'rid':
            ctx.check(a.count_unique(c) == b.count_unique(c), f'{msg}: distinct values of a column')
    if len(cols) > 1:
        ctx.check(a.count_unique(cols[:2]) == b.count_unique(cols[:2]), f'{msg}: distinct pairs')
    c = cols[-1]
    va, vb = a.values_list([c, 'rid'], to_list=True), b.values_list([c, 'rid'], to_list=True)
    va, vb = {int(i): v for v, i in va}, {int(i): v for v, i in vb}
    ctx.check(And(sorted(va) == sorted(vb), *[veq(va[i], vb.get(i)) for i in va]), f'{msg}: projection')
    for i in list(rows)[:1]:
        u = rows[i].get('user')
        q = f'rid == {i}'
        ctx.check(bool(a.exists(q)) == bool(b.exists(q)), f'{msg}: existence')
        ctx.check(And(*[veq(x, y) for x, y in zip(a.select_one(q, columns=cols[:2], to_list=True), b.select_one(q, columns=cols[:2], to_list=True))])
                  if len(cols) > 1 else True, f'{msg}: lookup of one row')
    q = 'rid == 77'
    ctx.check(not a.exists(q) and not b.exists(q) and a.select_one(q) is None and b.select_one(q) is None, f'{msg}: absent row')
    if a.has_internal_ids and 'user' in cols and 'uid' in cols:
        for r in rows.values():
            ctx.check(And(veq(a.user_to_uid(num(r['user'])), b.user_to_uid(num(r['user']))), veq(a.item_to_iid(num(r['item'])), b.item_to_iid(num(r['item']))),
                          veq(a.uid_to_user(int(r['uid'])), b.uid_to_user(int(r['uid']))), veq(a.iid_to_item(int(r['iid'])), b.iid_to_item(int(r['iid'])))),
                      f'{msg}: id conversions')
            if 'interaction' in cols:
                for fa, fb, k in ((a.select_user_interaction_vec, b.select_user_interaction_vec, int(r['uid'])),
                                  (a.select_item_interaction_vec, b.select_item_interaction_vec, int(r['iid']))):
                    x, y = vec(fa(k)), vec(fb(k))
                    ctx.check(And(len(x) == len(y), *[veq(p, q) for p, q in zip(x, y)]), f'{msg}: interaction vectors')
    for what, f in (('select unknown column', lambda d: d.select('nope == 1')),
                    ('select unknown operator', lambda d: d.select('rid ~ 1')),
                    ('select malformed', lambda d: d.select('rid==1')),
                    ('max unknown column', lambda d: d.max('nope')),
                    ('unique unknown column', lambda d: d.unique(['nope'])),
                    ('count unknown column', lambda d: d.count_unique('nope')),
                    ('values unknown column', lambda d: list(d.values(['nope']))),
                    ('apply unknown column', lambda d: d.apply('nope', lambda x: x)),
                    ('apply read-only column', lambda d: d.apply('rid', lambda x: x)),
                    ('conversion without ids', lambda d: None if d.has_internal_ids else d.uid_to_user(0))):
        (_, ea), (_, eb) = attempt(f, a), attempt(f, b)
        ctx.check((ea is None) == (eb is None), f'{msg}: {what}')


def step(ctx, k, a, b, ops, sel):
    op = ctx.choice(f'{k}.op', ops)
    cols = a.columns
    full = 'user' in cols and 'item' in cols and 'interaction' in cols
    empty = len(a) == 0
    st = ctx.__dict__.setdefault('_tsr', 0)
    if op in ('app', 'appF', 'appS', 'assign', 'remove', 'sel', 'selTs') and (not full or empty):
        ctx.prune('not applicable')
    if op == 'uniq' and 'user' not in cols:
        ctx.prune('not applicable')
    if op in ('sel', 'selI'):
        if sel == 'sym' and op == 'sel':
            v = ctx.int(f'{k}.v', -3, 3)
            q = f'interaction >= {lit(v)}'
        elif sel == 'sym':
            v = ctx.int(f'{k}.v', 0, 2)
            q = f'rid != {lit(v)}'
        else:
            q = 'user == ' + lit(ctx._u0) if 'user' in cols else 'rid != 1'
        return a.select(q, copy=op == 'sel'), b.select(q, copy=op == 'sel')
    if op == 'selTs':
        if st == 2:
            q = "timestamp == 'lo'"
        else:
            v = ctx.int(f'{k}.v', -3, 3)
            q = f'timestamp < {lit(v)}'
        return a.select(q), b.select(q)
    if op in ('drop', 'dropI', 'keep'):
        rids = [0, 2] if op == 'drop' else [1, 5]
        return a.drop(rids, copy=op != 'dropI', keep=op == 'keep'), b.drop(rids, copy=op != 'dropI', keep=op == 'keep')
    if op == 'uniq':
        cs = ['user', 'interaction'] if 'interaction' in cols and sel == 'sym' else ['item', 'user'] if 'item' in cols else ['user']
        return a.unique(cs), b.unique(cs)
    if op == 'copy':
        return a.copy(), b.copy()
    for d in (a, b):
        if op == 'app':
            d.apply('interaction', lambda x: x * 2 + 1)
        elif op == 'appF':
            if st:
                ctx.prune('once')
            d.apply('timestamp', lambda x: x / 2)
        elif op == 'appS':
            if st:
                ctx.prune('once')
            d.apply('timestamp', lambda x: 'lo' if x < 0 else 'hi')
        elif op == 'assign':
            d.assign_internal_ids()
        elif op == 'remove':
            d.remove_internal_ids()
    if op in ('appF', 'appS'):
        ctx._tsr = 1 if op == 'appF' else 2
    return a, b


def run(ctx, length, spec, sel='conc', ops=OPS6, n=3, full=False):
    reset_db()
    ctx._db_reset = True
    db_tune(_opt2_n_direct_interactions_threshold=ctx.choice('opt2', [2, 4]) if length < 3 else 2)
    rows = symrows(ctx, n, COLS, spec)
    ctx._u0 = rows[0][0]
    a, b = make_ds(ctx, 'memcsv', COLS, rows), make_ds(ctx, 'db', COLS, rows)
    pairs = [(a, b)]
    compare(ctx, a, b, 'after loading')
    for k in range(length):
        a, b = step(ctx, f's{k}', a, b, ops, sel)
        if a is not pairs[-1][0]:
            pairs.append((a, b))
    for j, (x, y) in enumerate(reversed(pairs)):
        msg = 'result' if j == 0 else 'earlier dataset'
        r = compare(ctx, x, y, msg)
        if j == 0:
            ask(ctx, x, y, r, msg, full)
    compare(ctx, a, b, 'after the questions')


def scenarios(tier):
    T = tier == 'thorough'
    L = 4 if T else 3
    out = [Scenario('hist', run, dict(length=L, spec=FIX, n=2 if not T else 3), weight=3),
           Scenario('hist.str', run, dict(length=L - 1, spec=STR)),
           Scenario('hist.sym', run, dict(length=L - 1, spec=FIX, sel='sym', n=3 if T else 2, full=True), weight=2),
           Scenario('ids', run, dict(length=1 if not T else 2, spec=INT, ops=['assign', 'uniq', 'app', 'keep'], full=T), weight=2)]
    return out
