"""C26: sampled sequences are contiguous runs with their targets and unseen negatives."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
OPTS = {'max_draws': 12}
COLS = ['user', 'item', 'interaction', 'ts']
BOUNDS = {
    'quick': '3..7 rows over 2 users with arbitrary interactions, threshold (or none) and sort values (or file order), minimum sizes 1..2, maximum none or 1..2, targets none '
             'or 1..2, 0..2 negatives per target, negatives by internal or raw item id, grouping by user, by internal id, by two columns, integer and string ids, 1..2 groups per '
             'call, up to 2 retries; reachability of each group, run and negative over fixed datasets; both backends',
    'thorough': '4..8 rows, repeated items over 2 users',
}
OUTSIDE = 'probabilities with which groups and runs are drawn; sort columns holding text; the number of retries before giving up'


def build(ctx, n, users, kind='int', fixed=None, sort=True, thr=True, dup=False):
    us = [7, 3, 5][:users] if kind == 'int' else ['b', "o'a", 'c c'][:users]
    its = [20, 11, 2, 33, 14, 8, 5, 40] if kind == 'int' else ['y', 'x', 'z', 'w', 'v', 'u', 't', 's']
    rows = []
    for i in range(n):
        u = us[0] if i == 0 else us[ctx.cint(f'u{i}', 0, users - 1)]
        it = its[i % len(its)] if not dup or i == 0 else its[ctx.cint(f'i{i}', max(0, i - 2), i)]
        rows.append((u, it, ctx.real(f'v{i}', 0, 5) if thr else 1.0, sort[i] if isinstance(sort, tuple) else ctx.int(f't{i}', 0, 9) if sort else (i * 7) % 5))
    return rows


def find(ctx, recs, rec, cols):
    """the row a sampled record is"""
    rid = int(rec['rid'])
    ctx.check(rid in recs, 'a sampled record does not exist')
    row = recs[rid]
    ctx.check(And(*[veq(rec[c], row[c]) for c in cols]), 'values of a sampled record')
    return rid


def run(ctx, backend, n, users=2, kind='int', group=('user',), sort=True, thr=True, mn=1, mx=None, nt=1, ratio=1, neg='iid', groups=1, dup=False, both=False):
    from DRecPy.Sampler import ListSampler
    rows = build(ctx, n, users, kind, sort=sort, thr=thr, dup=dup)
    t = ctx.real('thr', 0, 5) if thr else None
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    kw = dict(neg_ratio=ratio, n_targets=nt, interaction_threshold=t, sort_column='ts' if sort else None, min_positive_records=mn, max_positive_records=mx, seed=3)
    if neg != 'iid' or ctx.bool('explicit'):
        kw['negative_ids_col'] = neg
    s = ListSampler(ds, list(group), **kw)
    s.max_consecutive_tries = 1
    recs = {}
    for k, r in enumerate(rows):
        recs[k] = dict(zip(COLS, r), uid=ds.user_to_uid(r[0]), iid=ds.item_to_iid(r[1]))
    key = lambda r: tuple(r[c] for c in group)
    G = {}
    for k, r in recs.items():
        G.setdefault(key(r), []).append(k)
    pos = {g: [k for k in ks if t is None or bool(recs[k]['interaction'] >= t)] for g, ks in G.items()}
    all_neg = distinct([r[neg] for r in recs.values()])
    need = mn + (nt or 0)
    want = 0 if nt is None else ratio * nt

    def elig(g):
        return [i for i in all_neg if not any(veq(recs[k][neg], i) for k in pos[g])]

    ok = [g for g in G if len(pos[g]) >= need and (nt is None or len(elig(g)) >= want)]
    out, e = attempt(s.sample_group_records, groups)
    if not ok:
        ctx.check(e is not None, 'sampled although no group qualifies')
        return
    if e is not None:
        ctx.check(len(ok) < len(G), f'sampling fails although every group qualifies: {type(e).__name__}')
        return
    ctx.check(isinstance(out, list) and len(out) == groups, 'number of sampled groups')
    for x in out:
        p, ta, ne = (x, None, None) if nt is None else x
        if nt is not None:
            ctx.check(len(x) == 3, 'parts of a sampled group')
        ids = [find(ctx, recs, r, COLS + ['uid', 'iid']) for r in p]
        tids = [find(ctx, recs, r, COLS + ['uid', 'iid']) for r in ta or []]
        seq = ids + tids
        ctx.check(len(set(seq)) == len(seq), 'a record appears twice in a sampled group')
        ctx.check(len(ids) > 0, 'a sampled group is empty')
        g = key(recs[ids[0]])
        ctx.check(all(key(recs[k]) == g for k in seq), 'records of different groups were mixed')
        ctx.check(all(k in pos[g] for k in seq), 'a sampled record is not positive')
        ctx.check(len(ids) >= mn and (mx is None or len(ids) <= mx), 'number of positive records')
        ctx.check(len(tids) == (nt or 0), 'number of target records')
        if mx is None or len(pos[g]) <= mx + (nt or 0):
            ctx.check(len(seq) == len(pos[g]), 'records of the group are missing although there is room for them')
        sk = lambda k: recs[k]['ts'] if sort else k
        for a, b in zip(seq, seq[1:]):
            ctx.check(sk(a) <= sk(b), 'sampled records are not in order')
        for k in pos[g]:
            if k not in seq:
                ctx.check(Or(sk(k) <= sk(seq[0]), sk(k) >= sk(seq[-1])), 'the sampled run skips a record')
        if nt is not None:
            ctx.check(len(ne) == want, 'number of negative ids')
            el = elig(g)
            ctx.check(all(any(veq(i, j) for j in el) for i in ne), 'a negative id is positive for the group or unknown')
            ctx.check(len(distinct(list(ne))) == len(ne), 'a negative id was sampled twice')
    ctx.check(len(ds) == n, 'sampling changed the dataset')


def args(ctx, backend):
    from DRecPy.Sampler import ListSampler
    rows = build(ctx, 3, 1, sort=False, thr=False)
    noids = make_ds(ctx, backend, COLS, rows)
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    k = ctx.choice('kind', ['none', 'type', 'ids', 'ratio', 'targets', 'negcol', 'sort', 'max', 'fine'])
    v = ctx.int('v', -3, 0)
    kw = dict(n_targets=1, neg_ratio=0, min_positive_records=2)
    kw.update({'ratio': dict(neg_ratio=None), 'targets': dict(n_targets=v), 'negcol': dict(negative_ids_col='nope'), 'sort': dict(sort_column='nope'),
               'max': dict(max_positive_records=1 + v)}.get(k, {}))
    d = {'none': None, 'type': [1], 'ids': noids}.get(k, ds)
    s, e = attempt(ListSampler, d, ['user'], **kw)
    ctx.check((e is None) == (k == 'fine'), 'argument validation')


# user 7: items 20 11 2 33, user 3: items 20 8, user 5: item 2
FIXED = [(7, 20, 5.0, 4), (7, 11, 4.0, 3), (3, 20, 3.0, 1), (7, 2, 5.0, 1), (3, 8, 4.0, 2), (7, 33, 3.0, 2), (5, 2, 5.0, 0)]
REACH = {
    # name: (arguments, runs (user, positives, targets))
    'window': (dict(n_targets=1, neg_ratio=0, min_positive_records=1, max_positive_records=2, sort_column='ts'), {(7, (2, 33), (11,)), (7, (33, 11), (20,)), (3, (20,), (8,))}),
    'plain': (dict(n_targets=None, min_positive_records=2, max_positive_records=2), {(7, (20, 11), ()), (7, (11, 2), ()), (7, (2, 33), ()), (3, (20, 8), ())}),
    'all': (dict(n_targets=None, min_positive_records=1, interaction_threshold=4), {(7, (20, 11, 2), ()), (3, (8,), ()), (5, (2,), ())}),
    'thr': (dict(n_targets=1, neg_ratio=0, min_positive_records=1, max_positive_records=1, interaction_threshold=4, sort_column='ts'), {(7, (2,), (11,)), (7, (11,), (20,))}),
    'two targets': (dict(n_targets=2, neg_ratio=0, min_positive_records=1, max_positive_records=1), {(7, (20,), (11, 2)), (7, (11,), (2, 33))}),
    'exact': (dict(n_targets=2, neg_ratio=0, min_positive_records=2, max_positive_records=2), {(7, (20, 11), (2, 33))}),
}
NEGS = {3: {11, 2, 33}, 7: {8}}    # negatives with neg_ratio=1, n_targets=1, min 1


def name(x):
    return f'user {x[0]}: run {list(x[1])}, targets {list(x[2])}'


def reach(ctx, backend, case):
    """every qualifying run can be drawn"""
    from DRecPy.Sampler import ListSampler
    kw, runs = REACH[case]
    ds = make_ds(ctx, backend, COLS, FIXED, ids=True)
    s = ListSampler(ds, ['user'], seed=3, **kw)
    s.max_consecutive_tries = 1
    out, e = attempt(s.sample_group_records, 1)
    if e is not None:
        ctx.check(case != 'all', 'sampling fails although every group qualifies')
        return
    x = out[0] if kw['n_targets'] is not None else (out[0], [], [])
    r = (int(x[0][0]['user']), tuple(int(a['item']) for a in x[0]), tuple(int(a['item']) for a in x[1]))
    ctx.check(r in runs, 'a sampled run is not one of the qualifying runs')
    ctx.cover(name(r))


def reach_neg(ctx, backend):
    """every eligible negative can be drawn"""
    from DRecPy.Sampler import ListSampler
    ds = make_ds(ctx, backend, COLS, FIXED, ids=True)
    s = ListSampler(ds, ['user'], seed=3, n_targets=1, neg_ratio=1, min_positive_records=1, negative_ids_col='item')
    s.max_consecutive_tries = 1
    out, e = attempt(s.sample_group_records, 1)
    if e is not None:
        return
    u, ne = int(out[0][0][0]['user']), int(out[0][2][0])
    ctx.check(len(out[0][2]) == 1 and ne in NEGS[u], 'a negative is not one of the eligible ones')
    ctx.cover(f'user {u}: negative {ne}')


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    for b in ('mem', 'db'):
        m = b == 'mem'
        x = 2 if T else 1
        S = lambda nm, w=2, d=9, **kw: out.append(Scenario(f'{b}.{nm}', run, dict(backend=b, **kw), weight=w, opts={'max_draws': d}))
        S('plain', n=(4 if m else 3) + x // 2, mn=1, nt=1, ratio=1, sort=False)
        S('sorted', n=3 + x, mn=1, nt=1, ratio=1, thr=False)
        S('sorted.thr', n=3 + x // 2, mn=1, nt=1, ratio=0)
        S('digits', n=5, mn=1, mx=2, nt=1, ratio=0, sort=(10, 9, 100, -2, 1.5), users=1)
        S('dup.2', n=4, mn=1, nt=1, ratio=2, thr=False, sort=False, dup=True, users=2)
        S('window', n=(5 if m else 4) + x, mn=1, mx=1, nt=1, ratio=0, thr=False, sort=False, users=1)
        S('window.sorted', n=(4 if m else 3) + x // 2, mn=1, mx=1, nt=1, ratio=0, thr=False, users=1)
        S('window.2', n=6 + x, mn=2, mx=2, nt=2, ratio=1, thr=False, sort=False, users=2, neg='item')
        S('window.notargets', n=4 + x, mn=1, mx=2, nt=None, thr=False, sort=False)
        S('window.thr', n=(4 if m else 3) + x, mn=1, mx=1, nt=1, ratio=1, sort=False, users=1)
        S('notargets', n=3 + x, mn=2, nt=None, sort=False)
        S('str', n=3 + x, kind='str', mn=1, nt=1, ratio=1, thr=False, sort=False, neg='item')
        S('two', n=3 + x, mn=1, nt=1, ratio=1, thr=False, sort=False, groups=2)
        S('cols', n=3 + x, mn=1, nt=None, thr=False, sort=False, group=('user', 'ts'))
        S('uid', n=3 + x, mn=1, nt=1, ratio=2, thr=False, sort=False, group=('uid',))
        S('dup', n=3 + x, mn=1, nt=1, ratio=1, sort=False, dup=True, users=1 + x // 2)
        out.append(Scenario(f'{b}.args', args, dict(backend=b)))
        for c, (_, runs) in REACH.items():
            out.append(Scenario(f'{b}.reach.{c}', reach, dict(backend=b, case=c), goals=sorted(name(r) for r in runs)))
        out.append(Scenario(f'{b}.reach.neg', reach_neg, dict(backend=b), goals=[f'user {u}: negative {i}' for u, s in NEGS.items() for i in sorted(s)]))
    return out
