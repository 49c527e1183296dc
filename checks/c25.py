"""C25: sampled interaction pairs are truly positive or negative."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
OPTS = {'max_draws': 9}
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': '2..3 rows over 2 users and 2 items in every arrangement (repeated pairs included), arbitrary interactions and threshold (or none), every sequence of up to 14 '
             'draws, 2 positive and 2 negative pairs or a mixed sample of 2; raw ids that differ from internal ids, string ids, filtered datasets; queries over every column and '
             'operator for random rows; reachability of each row and pair over 6 fixed datasets; both backends',
    'thorough': '4 rows, 3 users and items, samples of 3',
}
OUTSIDE = 'datasets without any negative pair (sampling one does not end); probabilities with which pairs are drawn; longer rejection sequences'


def draw(ctx, n, users, items, kind, dup=True):
    us = [7, 3, 5][:users] if kind == 'int' else ['b', 'a', 'c'][:users]
    its = [20, 11, 2][:items] if kind == 'int' else ['y', 'x', 'z'][:items]
    rows = []
    for i in range(n):
        u = us[0] if i == 0 else us[ctx.cint(f'u{i}', 0, users - 1)]
        it = its[0] if i == 0 else its[ctx.cint(f'i{i}', 0, items - 1)]
        rows.append((u, it, ctx.real(f'v{i}', 0, 5)))
    return rows


class Truth:
    """internal rows of a dataset"""

    def __init__(self, ctx, ds, rows, thr):
        self.ctx, self.thr = ctx, thr
        us, its = distinct([r[0] for r in rows]), distinct([r[1] for r in rows])
        self.uid = {u: ds.user_to_uid(u) for u in us}
        self.iid = {i: ds.item_to_iid(i) for i in its}
        ctx.check(sorted(self.uid.values()) == list(range(len(us))) and sorted(self.iid.values()) == list(range(len(its))), 'internal ids')
        self.rows = [(self.uid[u], self.iid[i], v) for u, i, v in rows]

    def positive_row(self, v):
        return True if self.thr is None else v >= self.thr

    def is_positive(self, t):
        u, i, v = t
        return Or(*[And(u == a, i == b, v == x, self.positive_row(x)) for a, b, x in self.rows])

    def is_negative(self, t):
        u, i, v = t
        ok = And(u >= 0, u < len(self.uid), i >= 0, i < len(self.iid), v == 0)
        return And(ok, *[Not(And(u == a, i == b, self.positive_row(x))) for a, b, x in self.rows])

    def any_positive(self):
        return Or(*[self.positive_row(x) for _, _, x in self.rows])

    def any_negative(self):
        out = []
        for u in self.uid.values():
            for i in self.iid.values():
                out.append(And(*[Not(self.positive_row(x)) for a, b, x in self.rows if (a, b) == (u, i)]))
        return Or(*out)

    def pure(self):
        """no pair has records on both sides of the threshold"""
        if self.thr is None:
            return True
        return And(*[Iff(x >= self.thr, y >= self.thr) for k, (a, b, x) in enumerate(self.rows) for c, d, y in self.rows[:k] if (a, b) == (c, d)])


def run(ctx, backend, n, users=2, items=2, kind='int', thr=True, what='neg', k=2):
    from DRecPy.Sampler import PointSampler
    rows = draw(ctx, n, users, items, kind)
    t = ctx.real('thr', 0, 5) if thr else None
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    T = Truth(ctx, ds, rows, t)
    ctx.assume(T.any_positive())
    ctx.assume(T.any_negative())
    ratio = ctx.int('ratio', 0, 3) if what in ('mix', 'one') else 1
    s = PointSampler(ds, ratio, interaction_threshold=t, seed=11)
    if what == 'neg':
        for _ in range(k):
            ctx.check(T.is_negative(s.sample_negative()), 'a sampled negative pair is not negative')
    elif what == 'pos':
        for _ in range(k):
            ctx.check(T.is_positive(s.sample_positive()), 'a sampled positive pair is not a positive row')
    else:
        out = s.sample(k) if what == 'mix' else [s.sample_one()]
        ctx.check(isinstance(out, list) and len(out) == (k if what == 'mix' else 1), 'size of the sample')
        for p in out:
            ctx.check(len(p) == 3, 'size of a sampled entry')
            ctx.check(Or(T.is_positive(p), And(ratio > 0, T.is_negative(p))), 'a sampled pair is neither positive nor negative')


def none_positive(ctx, backend):
    """asking for a positive pair when there is none must not yield one"""
    from DRecPy.Sampler import PointSampler
    rows = draw(ctx, 2, 2, 2, 'int')
    t = ctx.real('thr', 0, 5)
    ctx.assume(And(*[r[2] < t for r in rows]))
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    p, e = attempt(lambda: PointSampler(ds, 1, interaction_threshold=t, seed=11).sample_positive())
    ctx.check(e is not None or tuple(p) == (None, None, None), 'a positive pair was sampled although there is none')


def unready(ctx, backend):
    from DRecPy.Sampler import PointSampler
    rows = draw(ctx, 2, 2, 2, 'int')
    ds = make_ds(ctx, backend, COLS, rows)
    for f in (lambda: PointSampler(ds, 1, seed=1), lambda: next(ds.select_random_generator(seed=1)), lambda: next(ds.null_interaction_pair_generator(seed=1))):
        _, e = attempt(f)
        ctx.check(e is not None, 'sampling without internal ids must be rejected')
    for a in ((None, 1), (ds, None), ([1, 2], 1)):
        _, e = attempt(lambda: PointSampler(*a))
        ctx.check(e is not None, 'invalid arguments must be rejected')


def gen(ctx, backend, n, kind='int', seeded=True, k=2):
    """random rows: exactly rows matching the query"""
    rows = draw(ctx, n, 2, 2, kind)
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    col = ctx.choice('col', [None, 'interaction', 'interaction', 'user', 'uid', 'iid'])
    T = Truth(ctx, ds, rows, None)
    full = [(u, i, v, a, b, k) for k, ((u, i, v), (a, b, _)) in enumerate(zip(rows, T.rows))]
    if col is None:
        match = full
        q = None
    else:
        op = ctx.choice('op', ['==', '!=', '<', '>='])
        j = {'user': 0, 'interaction': 2, 'uid': 3, 'iid': 4}[col]
        if col == 'user':
            if kind == 'str' and op in ('<', '>='):
                ctx.prune('ordering of names is C02')
            v = rows[ctx.cint('pick', 0, n - 1)][0]
        else:
            v = ctx.real('v', 0, 5) if col == 'interaction' else ctx.cint('v', 0, 1)
        q = f'{col} {op} {lit(v)}'
        match = [r for r in full if bool(op_holds(op, r[j], v))]
    g, e = attempt(lambda: ds.select_random_generator(q, **({'seed': 5} if seeded else {})))
    if not match:
        if e is None:
            _, e = attempt(lambda: next(g))
        ctx.check(e is not None, 'a random row was sampled although none matches')
        return
    if e is not None:
        ctx.check(False, f'random rows: {type(e).__name__}')
    for _ in range(k):
        r = next(g)
        ctx.check(Or(*[And(veq(r['user'], m[0]), veq(r['item'], m[1]), r['interaction'] == m[2], r['uid'] == m[3], r['iid'] == m[4], r['rid'] == m[5]) for m in match]),
                  'a random row is not one of the matching rows')
    ctx.check(len(ds) == n, 'sampling changed the dataset')


def filtered(ctx, backend, n):
    """samplers over a filtered dataset that kept its internal ids"""
    from DRecPy.Sampler import PointSampler
    rows = draw(ctx, n, 2, 2, 'int')
    base = make_ds(ctx, backend, COLS, rows, ids=True)
    T = Truth(ctx, base, rows, None)
    cut = ctx.real('cut', 0, 5)
    left = [i for i, r in enumerate(rows) if bool(r[2] > cut)]
    if not left:
        ctx.prune('empty')
    ds = base.select(f'interaction > {fmt(cut)}')
    T.rows = [T.rows[i] for i in left]
    ctx._keep.append(ds)
    mu, mi = max(a for a, _, _ in T.rows), max(b for _, b, _ in T.rows)
    if len({(a, b) for a, b, _ in T.rows}) == (mu + 1) * (mi + 1):
        ctx.prune('no negative pair')
    s = PointSampler(ds, 1, seed=11)
    ctx.check(T.is_negative(s.sample_negative()), 'a sampled negative pair is not negative')
    ctx.check(T.is_positive(s.sample_positive()), 'a sampled positive pair is not a positive row')


FIXED = {
    'two': ([(7, 20, 4.0), (3, 11, 2.0)], 3.0),
    'plain': ([(7, 20, 4.0), (3, 11, 2.0), (7, 11, 1.0)], None),
    'three': ([(7, 20, 4.0), (3, 11, 2.0), (5, 2, 3.0), (7, 2, 1.0)], 3.0),
    'one user': ([(7, 20, 4.0), (7, 11, 2.0), (7, 5, 1.0)], 2.0),
    'one item': ([(7, 20, 4.0), (5, 20, 2.0), (2, 20, 1.0)], 2.0),
    'long': ([(7, 20, 4.0), (7, 11, 2.0), (7, 5, 3.0), (7, 9, 5.0), (2, 5, 4.0)], None),
    'unseen': ([(7, 20, 4.0), (3, 11, 2.0), (7, 20, 5.0)], 2.0),
}


def pairs(name):
    rows, thr = FIXED[name]
    us, its = [], []
    for u, i, _ in rows:
        us += [u] if u not in us else []
        its += [i] if i not in its else []
    pos = {(u, i) for u, i, v in rows if thr is None or v >= thr}
    return rows, thr, [(u, i, v) for u, i, v in rows if thr is None or v >= thr], [(u, i) for u in us for i in its if (u, i) not in pos]


def goals_of(name, what):
    _, _, p, n = pairs(name)
    return {'pos': [f'row {x} is drawn' for x in p], 'neg': [f'pair {x} is drawn' for x in n],
            'mix': ['a mixed sample holds a positive and a negative pair']}[what]


def reach(ctx, backend, name, what):
    """every eligible row or pair can be drawn"""
    from DRecPy.Sampler import PointSampler
    rows, thr, p, n = pairs(name)
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    s = PointSampler(ds, 1, interaction_threshold=thr, seed=11)
    back = lambda u, i: (ds.uid_to_user(u), ds.iid_to_item(i))
    if what == 'mix':
        a, b = s.sample(2)
        ctx.check(len(a) == len(b) == 3, 'size of a sampled entry')
        if (a[2] == 0) != (b[2] == 0):
            ctx.cover('a mixed sample holds a positive and a negative pair')
        return
    u, i, v = s.sample_positive() if what == 'pos' else s.sample_negative()
    u, i = int(u), int(i)
    x = back(u, i)
    if what == 'pos':
        x = (int(x[0]), int(x[1]), float(v))
        ctx.check(x in p, 'a sampled positive pair is not a positive row')
        ctx.cover(f'row {x} is drawn')
    else:
        x = (int(x[0]), int(x[1]))
        ctx.check(x in n, 'a sampled negative pair is not negative')
        ctx.cover(f'pair {x} is drawn')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    out = []
    for b in ('mem', 'db'):
        nb = n if b == 'mem' else n - 1
        S = lambda nm, fn=run, w=2, d=9, **kw: out.append(Scenario(f'{b}.{nm}', fn, dict(backend=b, **kw), weight=w, opts={'max_draws': d}))
        S('neg', n=nb, k=1, d=8 if T else 7, w=3)
        S('neg2', n=2, k=2, d=10 if T else 9, w=3)
        S('neg.nothr', n=nb, thr=False, d=6)
        S('neg.str', n=2, kind='str', k=1, d=7)
        S('pos', n=nb, what='pos', k=2, d=8)
        S('pos.nothr', n=nb, what='pos', k=1, thr=False, d=4)
        S('mix', n=2, what='mix', k=2, w=3, d=12 if T else 9)
        S('one', n=2, what='one', thr=False)
        S('nopos', none_positive)
        S('unready', unready)
        S('gen', gen, n=nb, k=1, d=3)
        S('gen2', gen, n=2, k=2, d=5)
        S('gen.str', gen, n=2, kind='str', seeded=False, d=5)
        S('filtered', filtered, n=nb, d=6)
        if T:
            S('neg.wide', n=3, users=3, items=3, k=1)
            S('pos.wide', n=3, users=3, items=3, k=2, what='pos')
        for nm in FIXED:
            for w in ('pos', 'neg'):
                out.append(Scenario(f'{b}.reach.{nm}.{w}', reach, dict(backend=b, name=nm, what=w), goals=goals_of(nm, w), opts={'max_draws': 6 if w == 'neg' else 3}))
        out.append(Scenario(f'{b}.reach.mix', reach, dict(backend=b, name='plain', what='mix'), goals=goals_of('plain', 'mix'), opts={'max_draws': 8}))
    return out
