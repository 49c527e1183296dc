"""C04: internal ids are a bijection with the raw ids."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
INT = {'user': ('int', 1, 3), 'item': ('int', 5, 7), 'interaction': ('int', -9, 9), 'timestamp': ('int', -9, 9)}
INT2 = dict(INT, item=('int', 5, 6))
STR = dict(INT, user=('str', ['b', 'a', 'c']), item=('str', ['y', 'x']))
MIX = dict(INT, user=('str', ['b', 'a']), item=('int', 1, 2))
FLT = dict(INT, user=('str', [2.5, 1.5]), item=('str', [0.25, 7.75]))
BOUNDS = {
    'quick': '3 rows with integer (range of 3), string or fractional raw ids in every repetition pattern; assignment on the plain dataset, after a filter/drop '
             '(copying or in place), reassignment after filtering, removal and reassignment, with a row iterator open; compaction thresholds 1/4',
    'thorough': '4 rows, two filters',
}
OUTSIDE = 'conversions of ids that only exist in filtered-out rows before reassignment (backends keep different amounts of the former mapping)'


def check_ids(ctx, ds, m, backend, msg):
    check_model(ctx, ds, m, backend, msg, proj=False)
    ctx.check(ds.has_internal_ids is True, f'{msg}: flag')
    for raws, inv, fwd, bad in ((m.umap, ds.uid_to_user, ds.user_to_uid, 99), (m.imap, ds.iid_to_item, ds.item_to_iid, 99)):
        for k, raw in enumerate(raws):
            ctx.check(veq(fwd(raw), k), f'{msg}: raw to internal')
            ctx.check(veq(inv(k), raw), f'{msg}: internal to raw')
        ctx.check(inv(len(raws)) is None and inv(-1) is None, f'{msg}: unknown internal id')
        ctx.check(fwd('zz' if raws and isinstance(raws[0], str) else 99) is None, f'{msg}: unknown raw id')
        if raws and not isinstance(raws[0], str) and type(raws[0]) is not float:
            _, err = attempt(fwd, 'zz')
            ctx.check(err is not None, f'{msg}: raw id of another type must raise')
    if m.rows:
        ctx.check(And(ds.max('uid') == len(m.umap) - 1, ds.min('uid') == 0, ds.max('iid') == len(m.imap) - 1, ds.min('iid') == 0),
                  f'{msg}: contiguous ids')
        ctx.check(ds.count_unique('uid') == len(m.umap) and ds.count_unique('iid') == len(m.imap), f'{msg}: one id per user/item')


def filt(ctx, ds, m, name, kinds):
    kind = ctx.choice(name, kinds)
    if kind == 'none':
        return ds, m, kind
    copy = kind[0] == 'c'
    if kind[1:] == 'sel':
        v = ctx.int(name + '.v', -3, 3)
        r, m2 = ds.select(f'interaction >= {lit(v)}', copy=copy), m.select([('interaction', '>=', v)])
    elif kind[1:] == 'usr':
        u = m.rows[0][1]['user'] if m.rows else 1
        r, m2 = ds.select(f'user != {lit(u)}', copy=copy), m.select([('user', '!=', u)])
    else:
        rid = m.rows[0][0] if m.rows else 0
        r, m2 = ds.drop([rid], copy=copy), m.drop([rid])
    return r, m2, kind


def run(ctx, backend, n, spec, hist):
    if backend == 'db':
        reset_db()
        ctx._db_reset = True
        db_tune(_opt2_n_direct_interactions_threshold=ctx.choice('opt2', [1, 4]))
    rows = symrows(ctx, n, COLS, spec)
    ds = make_ds(ctx, backend, COLS, rows)
    base, m = ds, Model(COLS, rows)
    kinds = ['none', 'csel', 'isel', 'cusr', 'iusr', 'cdrop', 'idrop']
    for fn in (ds.user_to_uid, ds.iid_to_item):
        _, err = attempt(fn, 1)
        ctx.check(err is not None, 'conversions need assigned ids')
    keep = [ds]
    for step in hist:
        if step == 'a':
            try:
                ds.assign_internal_ids()
            except Exception as e:
                ctx._alive()
                if 'locked' in str(e) and 'i' in hist:
                    ctx.prune('a partially read iterator keeps the table locked')
                raise
            m = m.assign()
            check_ids(ctx, ds, m, backend, 'assigned')
        elif step == 'r':
            ds.remove_internal_ids()
            m = m.remove()
            check_model(ctx, ds, m, backend, 'removed', proj=False)
            ctx.check(ds.has_internal_ids is False, 'removed: flag')
            _, err = attempt(ds.user_to_uid, m.rows[0][1]['user'] if m.rows else 1)
            ctx.check(err is not None, 'removed: conversions need assigned ids')
        elif step == 'i':
            it = ds.values()
            if m.rows:
                next(it)
            keep.append(it)
        else:
            ds, m, kind = filt(ctx, ds, m, f'f{len(keep)}', kinds if step == 'F' else kinds[1:4])
            keep.append(ds)
            if not m.rows:
                ctx.prune('empty')
            if m.ids:
                # without reassignment the ids of the remaining rows stay what they were
                check_model(ctx, ds, m, backend, 'filtered', proj=False)
                for _, r in m.rows:
                    ctx.check(And(veq(ds.uid_to_user(r['uid']), r['user']), veq(ds.iid_to_item(r['iid']), r['item']),
                                  veq(ds.user_to_uid(r['user']), r['uid']), veq(ds.item_to_iid(r['item']), r['iid'])),
                              'filtered: conversions of the remaining ids')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    out = []
    for b in ('mem', 'db'):
        for nm, spec in (('int', INT), ('str', STR), ('mix', MIX), ('float', FLT)):
            deep = nm in ('int',)
            w = 2 if deep else 1
            out.append(Scenario(f'{b}.{nm}.plain', run, dict(backend=b, n=n, spec=spec, hist='ara'), weight=w))
            out.append(Scenario(f'{b}.{nm}.filter', run, dict(backend=b, n=n if deep or T else 2, spec=INT2 if deep and not T else spec, hist='Fa'), weight=w))
            out.append(Scenario(f'{b}.{nm}.refilter', run, dict(backend=b, n=n if nm in ('int', 'mix') else 2, spec=INT2 if deep and not T else spec, hist='afar' if not T else 'aFafar'), weight=w))
        if b == 'mem':  # sqlite refuses to change a table that is being read
            out.append(Scenario(f'{b}.iter', run, dict(backend=b, n=2, spec=INT, hist='iFaa')))
    return out
