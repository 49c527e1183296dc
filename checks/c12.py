"""C12: same seed, same result, whatever the schedule."""
from symx.kit import *
from checks.c10 import setup as user_rows

BUDGET = {'quick': 240, 'thorough': 700}
COLS = ['user', 'item', 'interaction']
OPTS = {'max_draws': 60, 'int_hash': 'eq', 'shuffle': 'two', 'fixed_streams': ['seed99', 'seed100', 'seed101', 'seed102', 'seed103']}
BOUNDS = {
    'quick': 'two calls with the same arguments and seed 0: the first runs the tasks in order, the second in any order of up to 3 user tasks, or pre-empts a task once at any lock or call, with other '
             'thread counts and verbosity, after arbitrary other draws, reseeding of the global generator and a call with another seed; splits over 3..4 rows of up to 3 users with arbitrary '
             'timestamps, ranking and recommendation evaluation over 3..4 rows of 2 users with arbitrary interactions, draws and metric values, point and list samplers and random rows of 3..5 '
             'records; item ids whose hashes differ between the two calls; both backends (pre-emption: in memory)',
    'thorough': '5 rows, two pre-emptions',
}
OUTSIDE = ('the values random.Random yields for a seed (any function of the seed and the calls made so far); more tasks; switches between two bytecodes of one expression without a call; '
           'concurrent calls of the same split or evaluation (documented as not supported); training of models')


class Salted(str):
    """a string whose hash depends on the process (PYTHONHASHSEED)"""
    salt = 0

    def __hash__(self):
        return (hash(str(self)) * 7 + 3) if Salted.salt else -hash(str(self))

    __eq__ = str.__eq__
    __ne__ = str.__ne__


def disturb():
    import symx.boot as boot
    rnd = boot.lib('random')
    rnd.randint(0, 1)
    rnd.seed(3)


def twice(ctx, f, second):
    """f(k) for k = 0, 1; the second call runs under another schedule"""
    o = ctx.opts
    ctx.opts = dict(o, pool='fifo')
    a = f(0)
    disturb()
    ctx.opts = dict(o, **second)
    b = f(1)
    ctx.opts = o
    return a, b


SECOND = {'any': dict(pool='any'), 'pre': dict(preempt=1), 'pre2': dict(preempt=2)}


def rows_of(ds):
    return ds.values_list(to_list=True), list(ds.columns)


def same_rows(ctx, a, b, what):
    ctx.check(a[1] == b[1], f'{what}: columns')
    ctx.check(len(a[0]) == len(b[0]), f'{what}: number of rows')
    ctx.check(And(*[row_eq(x, y) for x, y in zip(a[0], b[0])]), f'{what}: rows or their order')


def row_eq(x, y):
    return And(len(x) == len(y), *[veq(p, q) for p, q in zip(x, y)])


def split(ctx, backend, kind, n, second, ids='int', pattern=None, **kw):
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split, random_split
    ds, m = user_rows(ctx, backend, n, ids, '', pattern)
    f = {'leave': leave_k_out, 'matrix': matrix_split, 'random': random_split}[kind]
    args = dict(kw)
    if kind == 'leave':
        args['k'] = ctx.choice('k', [1, 2, 0.5] if second == 'any' else [1, 0.5])
        if args['k'] == 0.5 and args.get('last_timestamps'):
            ctx.prune('covered')
    elif kind == 'matrix':
        args.update(user_test_ratio=0.7, item_test_ratio=0.5, min_user_interactions=0 if backend == 'mem' else 2)
    else:
        args['test_ratio'] = 0.5
    seed = 0

    def call(i):
        a = dict(args, seed=seed, verbose=i == 1)
        if kind != 'random':
            a['max_concurrent_threads'] = 2 + 2 * i
        if i == 1:
            f(ds, **dict(a, seed=99))       # an earlier call must not matter
        tr, te = f(ds, **a)
        return rows_of(tr), rows_of(te)

    a, b = twice(ctx, call, SECOND[second])
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    same_rows(ctx, a[0], b[0], 'train')
    same_rows(ctx, a[1], b[1], 'test')


def evaluate(ctx, backend, kind, n, second, ids='int', users=2, **kw):
    from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation
    from DRecPy.Evaluation.Metrics import RankingMetricABC
    us = [5, 3, 4][:users] if ids == 'int' else ['b', 'a', 'c'][:users]
    its = [0, 1, 2, 3] if ids == 'int' else ['x', 'y', 'z', 'w']
    rows = [(us[min(i // 2, users - 1)], its[i % len(its)], ctx.real(f'v{i}', 0.5, 5)) for i in range(n)]
    ds = make_ds(ctx, backend, COLS, rows)
    tds = make_ds(ctx, backend, COLS, [(us[0], its[3], 4.0), (us[-1], its[2], 4.0), (77 if ids == 'int' else 'q', its[0], 1.0), (77 if ids == 'int' else 'q', its[1], 1.0)])
    memo = {}

    class Value(RankingMetricABC):
        """an arbitrary function of its arguments"""

        def __init__(self):
            super().__init__()
            self.name = 'V'

        def __call__(self, recommendations, k=None, relevant_recommendations=None, relevant_recommendation=None, relevancies=None):
            key = (tuple(recommendations), k, tuple(relevant_recommendations), relevant_recommendation, tuple(relevancies))
            if key not in memo:
                memo[key] = ctx.real(f'm{key}', -1, 1)
            return memo[key]

    class Model:
        interaction_threshold = 2.5
        n_items = len(its)
        interaction_dataset = tds

        def rank(self, user, items, **k):
            return [(1.0, i) for i in items]

        def recommend(self, user, n=None, **k):
            return [(1.0, i) for i in (its if user == us[0] else its[::-1])[:n]]

    f = ranking_evaluation if kind == 'rank' else recommendation_evaluation
    metric, model = [Value()], Model()
    seed = 0

    def call(i):
        a = dict(kw, seed=seed, k=2, metrics=metric, ds_test=ds, verbose=i == 1, max_concurrent_threads=2 + 2 * i)
        if i == 1:
            f(model, **dict(a, seed=99))
        return f(model, **a)

    a, b = twice(ctx, call, SECOND[second])
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    ctx.check(list(a) == list(b) == ['V@2'], 'names of the results')
    ctx.check_close(a['V@2'], b['V@2'], 'result of an evaluation', tol=0.00011)


def evaluate_default(ctx, backend, kind, second):
    """the library's own metrics; one user's tasks are interrupted by the other's"""
    from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation
    ds = make_ds(ctx, backend, COLS, [(5, 0, 4.0), (5, 1, 1.0), (3, 2, 3.0), (3, 0, 5.0)])
    tds = make_ds(ctx, backend, COLS, [(5, 3, 4.0), (3, 3, 4.0)])
    order = ctx.choice('order', [[1, 0, 2], [2, 0, 1]])

    class Model:
        interaction_threshold = 2.5
        n_items = 4
        interaction_dataset = tds

        def rank(self, user, items, **k):
            return [(1.0, i) for i in order if i in items]

        def recommend(self, user, n=None, **k):
            return [(1.0, i) for i in order[:n]]

    f = ranking_evaluation if kind == 'rank' else recommendation_evaluation
    model = Model()
    a, b = twice(ctx, lambda i: f(model, ds_test=ds, seed=1, k=[1, 2], verbose=i == 1), SECOND[second])
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    ctx.check(a == b, f'results of the default metrics {a} {b}')


def sampler_rows(ctx, n, kind):
    us = [7, 3] if kind == 'int' else ['b', 'a']
    its = [20, 11, 2, 5, 9] if kind == 'int' else ['y', 'x', 'z', 'v', 'u']
    if kind == 'salted':
        its = [Salted(i) for i in its]
    return [(us[0] if i == 0 else us[ctx.cint(f'u{i}', 0, 1)], its[i], ctx.real(f'v{i}', 0, 5)) for i in range(n)]


def point(ctx, backend, n, thr):
    from DRecPy.Sampler import PointSampler
    rows = sampler_rows(ctx, n, 'int')
    t = 2.5 if thr else None
    if thr:
        ctx.assume(Or(*[r[2] >= 2.5 for r in rows]))
    if len({r[0] for r in rows}) == 1:
        ctx.prune('no negative pair')
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    seed = 0
    what = ctx.choice('what', ['mix', 'pos', 'neg'])

    def call(i):
        if i:
            PointSampler(ds, 1, interaction_threshold=t, seed=99).sample_positive()
        s = PointSampler(ds, 1, interaction_threshold=t, seed=seed)
        return s.sample(2) if what == 'mix' else [s.sample_positive(), s.sample_positive()] if what == 'pos' else [s.sample_negative(), s.sample_negative()]

    a, b = twice(ctx, call, {})
    ctx.check(len(a) == len(b) and And(*[row_eq(x, y) for x, y in zip(a, b)]), 'sampled pairs')


def rows_gen(ctx, backend, n):
    """random rows and random missing pairs of a dataset"""
    rows = sampler_rows(ctx, n, 'int')
    if len({r[0] for r in rows}) == 1:
        ctx.prune('no missing pair')
    ds = make_ds(ctx, backend, COLS, rows, ids=True)
    seed = 0
    q = ctx.choice('query', [None, 'item > 2', 'missing'])

    def call(i):
        g = ds.null_interaction_pair_generator(seed=seed) if q == 'missing' else ds.select_random_generator(q, seed=seed)
        out = []
        for _ in range(3):
            r = next(g)
            out.append(tuple(r) if q == 'missing' else (r['rid'], r['item']))
        return out

    a, b = twice(ctx, call, {})
    ctx.check(len(a) == len(b) and And(*[row_eq(x, y) for x, y in zip(a, b)]), 'random rows')


def lists(ctx, backend, n, kind, neg):
    from DRecPy.Sampler import ListSampler
    rows = sampler_rows(ctx, n, kind)
    seed = 0
    mx = ctx.choice('max', [None, 1])
    us = distinct([r[0] for r in rows])
    cnt = [len([r for r in rows if r[0] == u]) for u in us]
    if len(us) == 1 or min(cnt) < 2:
        ctx.prune('covered by C26')

    def call(i):
        Salted.salt = i
        ds = make_ds(ctx, backend, COLS, rows, ids=True)
        if i:
            ListSampler(ds, ['user'], neg_ratio=1, n_targets=1, negative_ids_col=neg, min_positive_records=1, seed=99).sample_group_records(1)
        s = ListSampler(ds, ['user'], neg_ratio=2, n_targets=1, negative_ids_col=neg, min_positive_records=1, max_positive_records=mx, seed=seed)
        return s.sample_group_records(1)

    try:
        a, b = twice(ctx, call, {})
    finally:
        Salted.salt = 0
    rid = lambda rs: [int(r['rid']) for r in rs]
    ctx.check([(rid(p), rid(t), n) for p, t, n in a] == [(rid(p), rid(t), n) for p, t, n in b], 'sampled groups')


def scenarios(tier):
    T = tier == 'thorough'
    pre = 'pre2' if T else 'pre'
    out = []
    for b in ('mem', 'db'):
        n = (4 if T else 3)
        pat = None if T else [0, 1, 0] if b == 'db' else [0, 1, 2]
        for k in ('leave', 'matrix', 'random'):
            out.append(Scenario(f'{b}.{k}', split, dict(backend=b, kind=k, n=n, second='any', pattern=pat), weight=3))
        out.append(Scenario(f'{b}.leave.last', split, dict(backend=b, kind='leave', n=n, second='any', last_timestamps=True, pattern=pat), weight=2))
        out.append(Scenario(f'{b}.leave.str', split, dict(backend=b, kind='leave', n=3, second='any', ids='str', pattern=[0, 1, 0])))
        for k in ('rank', 'recommend'):
            out.append(Scenario(f'{b}.{k}', evaluate, dict(backend=b, kind=k, n=n, second='any', n_pos_interactions=1), weight=2))
            out.append(Scenario(f'{b}.{k}.all', evaluate, dict(backend=b, kind=k, n=n + 1, users=3 if T else 2, second='any', ids='str'), weight=2))
        out.append(Scenario(f'{b}.rank.neg', evaluate, dict(backend=b, kind='rank', n=4, second='any', n_neg_interactions=1), weight=2))
        out.append(Scenario(f'{b}.rank.gen', evaluate, dict(backend=b, kind='rank', n=2, users=1, second='any', n_neg_interactions=1, generate_negative_pairs=True), weight=2, opts=dict(max_draws=12)))
        for thr in (False, True):
            out.append(Scenario(f'{b}.point.{"thr" if thr else "all"}', point, dict(backend=b, n=2, thr=thr), weight=2, opts=dict(max_draws=9 if T else 7)))
        out.append(Scenario(f'{b}.rows', rows_gen, dict(backend=b, n=3), weight=2, opts=dict(max_draws=9 if T else 7)))
        for kind, neg in (('int', 'iid'), ('str', 'item')):
            out.append(Scenario(f'{b}.lists.{kind}', lists, dict(backend=b, n=5, kind=kind, neg=neg), weight=2))
    out.append(Scenario('mem.lists.hash', lists, dict(backend='mem', n=5, kind='salted', neg='item'), weight=2))
    for k in ('leave', 'matrix'):
        out.append(Scenario(f'pre.{k}', split, dict(backend='mem', kind=k, n=4, second=pre, pattern=[0, 1, 0, 1]), weight=3))
    for k in ('rank', 'recommend'):
        out.append(Scenario(f'pre.{k}', evaluate, dict(backend='mem', kind=k, n=4, second=pre, n_pos_interactions=1), weight=3, opts=dict(shuffle='two' if T else 'id')))
        out.append(Scenario(f'pre.{k}.default', evaluate_default, dict(backend='mem', kind=k, second=pre), weight=2))
    return out
