"""C01: row selection returns exactly the matching rows, unchanged, on both backends."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction', 'timestamp']
NUM = {'user': ('int', 0, 9), 'item': ('int', 0, 9), 'interaction': ('real', -9, 9), 'timestamp': ('int', -99, 99)}
NUM_I = dict(NUM, interaction=('int', -9, 9), timestamp=('real', -9, 9))
SMALL = dict(NUM, user=('int', 1, 3), item=('int', 1, 2))
STR = {'user': ('str', ['a', 'b', 'item']), 'item': ('str', ['x', 'y']), 'interaction': ('real', -9, 9),
       'timestamp': ('int', -99, 99)}
BOUNDS = {
    'quick': '3 rows (numeric columns, arbitrary values in the ranges), 1 condition over every column and operator (integer columns against integers and fractions); 2 rows, '
             'conjunction of 2 conditions over every operator pair, of 3 and 4 conditions (2 operators, also repeated columns); string ids from a 3-letter alphabet; chained selects',
    'thorough': '4 rows / 1 condition, 3 rows / 2 conditions, 3 rows / 3 conditions over every operator, 2 rows / 4 conditions (3 operators), string ids, chained selects of depth 3',
}
STR_S = dict(STR, user=('str', ['a', 'b']), item=('str', ['x', 'y']))
ODD = dict(STR, user=('str', ['a\\b, c', "O'N", 'é %_']), item=('str', ['x", ?:1']), interaction=('real', 0, 0), timestamp=('int', 0, 0))
OUTSIDE = 'larger datasets, integers beyond 2^53'


def value_for(ctx, name, col, spec, frac=False):
    k = spec.get(col)
    if col in ('uid', 'iid', 'rid'):
        return ctx.int(name, -1, 3)
    if k[0] == 'str':
        return ctx.choice(name, list(k[1]) + ['zz'])
    if k[0] == 'int':
        if frac:    # integer columns may be compared with fractional values as well
            return ctx.real(name, k[1] - 1, k[2] + 1)
        return ctx.int(name, k[1] - 1, k[2] + 1)
    return ctx.real(name, k[1] - 1, k[2] + 1)


def internal(rows, j):
    """internal ids expected for column j: order of first appearance"""
    vals = distinct([r[j] for r in rows])
    out = []
    for r in rows:
        for k, v in enumerate(vals):
            if bool(veq(v, r[j])):
                out.append(k)
                break
    return out


def run(ctx, backend, n, spec, conds, ids=False, mode='select', cols=COLS, chain=None, frac=False, ops=None):
    rows = symrows(ctx, n, cols, spec)
    if ids == 'choose':
        ids = ctx.bool('ids')
    ds = make_ds(ctx, backend, cols, rows, ids=ids)
    extra = {}
    if ids:
        ui, ii = internal(rows, 0), internal(rows, 1)
        extra = {i: {'uid': ui[i], 'iid': ii[i]} for i in range(n)}
    cs = []
    for k, colopts in enumerate(conds):
        col = ctx.choice(f'c{k}.col', colopts)
        opsl = OPS if spec.get(col, ('int',))[0] != 'str' else ['==', '!=', '<', '>=']
        op = ctx.choice(f'c{k}.op', ops or opsl)
        v = value_for(ctx, f'c{k}.val', col, spec, frac)
        cs.append((col, op, v))

    def cell(i, col):
        if col == 'rid':
            return i
        if col in ('uid', 'iid'):
            return extra[i][col]
        return rows[i][cols.index(col)]

    def holds(i):
        return And(*[op_holds(op, cell(i, col), v) for col, op, v in cs])
    sel = cs
    if chain:
        res = ds
        for col, op, v in cs:
            res = res.select(f'{col} {op} {lit(v)}')
    else:
        q = ', '.join(f'{col} {op} {lit(v)}' for col, op, v in cs)
        if mode == 'select':
            res = ds.select(q)
        elif mode == 'inplace':
            res = ds.select(q, copy=False)
            ctx.check(res is ds, 'select(copy=False) must return the dataset itself')
        elif mode == 'one':
            one = ds.select_one(q)
            anyh = Or(*[holds(i) for i in range(n)])
            ctx.check(Iff(one is not None, anyh), 'select_one: a row is returned exactly when one matches')
            if one is not None:
                i = int(one['rid'])
                ctx.check(0 <= i < n, 'select_one: unknown record id')
                ctx.check(holds(i), 'select_one: the returned row does not match the query')
                ctx.check(row_eq(one, cols, rows[i]), 'select_one: the returned row was altered')
                lst = ds.select_one(q, columns=['interaction', 'user'], to_list=True)
                j = [i2 for i2 in range(n) if bool(And(veq(lst[0], rows[i2][2]), veq(lst[1], rows[i2][0])))]
                ctx.check(len(j) > 0, 'select_one: projected columns do not belong to any row')
                ctx.check(Or(*[holds(i2) for i2 in j]), 'select_one: projected row does not match')
                if backend != 'db':
                    ctx.check(And(*[Not(holds(k)) for k in range(i)]), 'select_one: not the first matching row')
            ctx.check(Iff(ds.exists(q), anyh), 'exists disagrees with the query')
            check_same_rows(ctx, ds, cols, {i: rows[i] for i in range(n)}, 'select_one changed the dataset')
            return
    got = rid_rows(res)
    order = [int(r['rid']) for r in res.values_list()]
    ctx.check(len(order) == len(got), 'select: a record id appears twice')
    ctx.check(len(res) == len(got), 'select: len() differs from the number of rows')
    for i in range(n):
        ctx.check(Iff(i in got, holds(i)), 'select: a row is kept although it does not match or lost although it does')
        if i in got:
            ctx.check(row_eq(got[i], cols, rows[i]), 'select: a kept row was altered')
            if ids:
                ctx.check(And(got[i]['uid'] == extra[i]['uid'], got[i]['iid'] == extra[i]['iid']),
                          'select: internal ids of a kept row changed')
    ctx.check(all(0 <= i < n for i in got), 'select: unknown record id')
    if backend != 'db':
        ctx.check(order == sorted(order), 'select: row order changed')
    if mode == 'select':
        check_same_rows(ctx, ds, cols, {i: rows[i] for i in range(n)}, 'select changed the source dataset')


ALL = COLS + ['rid']
IDS = ['uid', 'iid', 'user']


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    for b in ('mem', 'db'):
        out.append(Scenario(f'{b}.one-cond', run, dict(backend=b, n=4 if T else 3, spec=NUM, conds=[ALL])))
        out.append(Scenario(f'{b}.one-cond.intcol', run, dict(backend=b, n=3 if T else 2, spec=NUM_I,
                                                              conds=[['interaction', 'timestamp']])))
        out.append(Scenario(f'{b}.fraction', run, dict(backend=b, n=3 if T else 2, spec=NUM, conds=[['user', 'item', 'timestamp']], frac=True)))
        out.append(Scenario(f'{b}.two-cond', run, dict(backend=b, n=3 if T else 2, spec=NUM,
                                                       conds=[['user', 'interaction'], ['item', 'interaction']])))
        out.append(Scenario(f'{b}.three-cond', run, dict(backend=b, n=3 if T else 2, spec=NUM, ops=OPS if T else ['>=', '!='],
                                                         conds=[['user', 'interaction'], ['item'], ['timestamp', 'user']])))
        out.append(Scenario(f'{b}.four-cond', run, dict(backend=b, n=2, spec=NUM, ops=['>=', '<', '!='] if T else ['>', '<='],
                                                        conds=[['interaction'], ['user'], ['interaction'], ['item']])))
        out.append(Scenario(f'{b}.inplace', run, dict(backend=b, n=2, spec=NUM, conds=[['user', 'interaction']],
                                                      mode='inplace')))
        out.append(Scenario(f'{b}.one', run, dict(backend=b, n=3 if T else 2, spec=NUM, conds=[ALL], mode='one')))
        out.append(Scenario(f'{b}.one2', run, dict(backend=b, n=2, spec=NUM, conds=[['user'], ['interaction']],
                                                   mode='one')))
        out.append(Scenario(f'{b}.chain', run, dict(backend=b, n=2, spec=NUM,
                                                    conds=[['interaction'], ['item']] + ([['user']] if T else []),
                                                    chain=True)))
        out.append(Scenario(f'{b}.ids', run, dict(backend=b, n=3 if T else 2, spec=SMALL, conds=[IDS], ids=True)))
        out.append(Scenario(f'{b}.ids2', run, dict(backend=b, n=2, spec=SMALL if T else dict(SMALL, user=('int', 1, 2)), conds=[['uid'], ['iid']], ids=True)))
        out.append(Scenario(f'{b}.str', run, dict(backend=b, n=2, spec=STR, conds=[['user', 'item']])))
        out.append(Scenario(f'{b}.str.odd', run, dict(backend=b, n=2, spec=ODD, conds=[['user', 'item']], ids='choose')))
        out.append(Scenario(f'{b}.str.odd.one', run, dict(backend=b, n=2, spec=ODD, conds=[['user', 'item']], mode='one')))
        out.append(Scenario(f'{b}.str2', run, dict(backend=b, n=2, spec=STR if T else STR_S, conds=[['user'], ['interaction']])))
        out.append(Scenario(f'{b}.str.ids', run, dict(backend=b, n=2, spec=STR, conds=[['user', 'item', 'uid']], ids=True)))
        out.append(Scenario(f'{b}.str.one', run, dict(backend=b, n=2, spec=STR, conds=[['user', 'item']], mode='one',
                                                      ids=True)))
    out.append(Scenario('memcsv.one-cond', run, dict(backend='memcsv', n=2, spec=NUM, conds=[ALL])))
    out.append(Scenario('memcsv.str', run, dict(backend='memcsv', n=2, spec=STR, conds=[['user']])))
    return out
