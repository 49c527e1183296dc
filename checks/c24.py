"""C24: models speak raw ids and fail cleanly on unknown ones."""
from symx import core
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
REAL_TF = True
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': '3-4 rows with every repetition pattern of users and items; integer ids that differ from, or permute, the internal ones, and string ids; any integer or listed string asked for; '
             'every outcome of the prediction; arbitrary interaction values; every shipped model fitted for no epochs; fitting again on other data, with or without copying it; both backends',
    'thorough': '4-5 rows',
}
OUTSIDE = 'standardisation when all interactions are equal; a smallest interaction of exactly 1 is exposed as 0, as the code states; saving and loading models'


class Boom(Exception):
    pass


def base_class():
    from DRecPy.Recommender import RecommenderABC

    class M(RecommenderABC):
        def _pre_fit(self, *a, **k): pass
        def _sample_batch(self, *a, **k): raise NotImplementedError
        def _predict_batch(self, *a, **k): raise NotImplementedError
        def _compute_batch_loss(self, *a, **k): raise NotImplementedError
        def _predict(self, uid, iid, **k): return self.answer(uid, iid)
    return M


IDS = {'int': ([4, 5, 0, 3], [6, 1, 4, 3]), 'perm': ([2, 0, 1, 3], [1, 2, 0, 3]), 'str': (['b', 'a', 'c', '1'], ['y', 'z', 'x', '0'])}


def rows_of(ctx, kind, n, spread=3, tag='', val=None):
    U, I = IDS[kind]
    rows = []
    for k in range(n):
        u, i = U[ctx.choice(f'{tag}u{k}', list(range(min(k + 1, spread))))], I[ctx.choice(f'{tag}i{k}', list(range(min(k + 1, spread))))]
        rows.append((u, i, ctx.real(f'{tag}r{k}', -5, 5) if val is None else val))
    return rows


def first(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def predict(ctx, backend, kind, n):
    rows = rows_of(ctx, kind, n, val=3.0)
    ds = make_ds(ctx, backend, COLS, rows)
    users, items = first(r[0] for r in rows), first(r[1] for r in rows)
    m = base_class()(verbose=False)
    u = ctx.int('u', -1, 6) if kind != 'str' else ctx.choice('u', ['a', 'b', 'c', '', 'zz'])
    i = ctx.int('i', -1, 7) if kind != 'str' else ctx.choice('i', ['x', 'y', 'z', '', 'a'])
    skip = ctx.bool('skip')
    out = ctx.choice('out', ['value', 'none', 'raise', 'zero'])
    v = ctx.real('v', -9, 9) if out == 'value' else 0
    asked = []

    def answer(uid, iid):
        asked.append((uid, iid))
        if out == 'raise':
            raise Boom('scripted')
        return None if out == 'none' else v
    m.answer = answer
    if ctx.bool('early'):
        for call in (lambda: m.predict(u, i, skip_errors=skip), lambda: m.rank(u, [i]), lambda: m.recommend(u)):
            _, e = attempt(call)
            ctx.check(e is not None, 'a model that is not fitted must raise')
        ctx.check(not asked, 'a model that is not fitted was asked')
        return
    m.fit(ds)
    got, e = attempt(m.predict, u, i, skip_errors=skip)
    ku = [k for k, x in enumerate(users) if bool(veq(x, u))]
    ki = [k for k, x in enumerate(items) if bool(veq(x, i))]
    if not ku or not ki:
        ctx.check(not asked, 'a model was asked about an unknown user or item')
        ctx.check(skip or e is not None, 'unknown users and items must raise')
        ctx.check(not skip or (e is None and got is None), 'unknown users and items yield nothing when errors are skipped')
        return
    ctx.check(len(asked) == 1 and And(asked[0][0] == ku[0], asked[0][1] == ki[0]), 'internal ids passed to the model')
    if out in ('value', 'zero'):
        ctx.check(e is None, f'prediction failed: {e!r}')
        ctx.check(e is not None or veq(got, v), 'predicted value')
    elif skip:
        ctx.check(e is None and got is None, 'failing predictions yield nothing when errors are skipped')
    else:
        ctx.check(e is not None and (out != 'raise' or isinstance(e, Boom)), 'failing predictions must raise')


def lists(ctx, backend, kind, n):
    """ids given to and taken from a model that overrides the ranking"""
    rows = rows_of(ctx, kind, n, val=3.0)
    ds = make_ds(ctx, backend, COLS, rows)
    users, items = first(r[0] for r in rows), first(r[1] for r in rows)
    asked = []

    class R(base_class()):
        def _rank(self, uid, iids, n, novelty):
            asked.append((uid, list(iids), n, novelty))
            return [(s, k) for s, k in zip(score, asked[-1][1])][:n]
    score = [ctx.real(f's{k}', -9, 9) for k in range(len(items))]
    m = R(verbose=False)
    m.fit(ds)
    U = users[ctx.choice('who', list(range(len(users))))]
    nov = ctx.bool('nov')
    if ctx.bool('rec'):
        k = ctx.choice('n', [None, 1])
        thr = ctx.choice('thr', [None, 0.5])
        got = m.recommend(U, n=k, novelty=nov, interaction_threshold=thr)
        ctx.check(len(asked) == 1 and asked[0][0] == users.index(U) and sorted(asked[0][1]) == list(range(len(items))) and asked[0][3] is nov, 'all items are ranked')
        ctx.check(asked[0][2] == (len(items) if k is None else k), 'number of requested recommendations')
        want = [(s, items[j]) for s, j in list(zip(score, asked[0][1]))[:asked[0][2]]]
        if thr is not None:
            want = [(s, j) for s, j in want if bool(s >= thr)]
    else:
        lst = items[::-1] if ctx.bool('rev') else items[:2]
        got = m.rank(U, lst, novelty=nov)
        ctx.check(len(asked) == 1 and asked[0] == (users.index(U), [items.index(x) for x in lst], len(lst), nov), 'the given items are ranked')
        want = list(zip(score, lst))
    ctx.check([j for _, j in got] == [j for _, j in want], 'raw ids of the ranked items')
    ctx.check(And(*[veq(a, b) for (a, _), (b, _) in zip(got, want)]), 'scores of the ranked items')


def stats_of(ctx, m, rows, ds):
    vals = [r[2] for r in rows]
    lo, hi = m.min_interaction, m.max_interaction
    ctx.check(And(Or(*[hi == v for v in vals]), *[hi >= v for v in vals]), 'largest interaction')
    ctx.check(Or(And(Or(*[lo == v for v in vals]), *[lo <= v for v in vals], lo != 1), And(lo == 0, Or(*[v == 1 for v in vals]), *[v >= 1 for v in vals])), 'smallest interaction')
    ctx.check(m.n_users == len(first(r[0] for r in rows)) and m.n_items == len(first(r[1] for r in rows)) and m.n_rows == len(rows), 'numbers of users, items and rows')


def stats(ctx, backend, n, again):
    rows = rows_of(ctx, 'int', n)
    ds = make_ds(ctx, backend, COLS, rows)
    m = base_class()(verbose=False)
    m.answer = lambda u, i: 1.0
    m.fit(ds)
    stats_of(ctx, m, rows, ds)
    ctx.check(m.fitted is True, 'the model is fitted')
    if again:
        rows2 = rows_of(ctx, 'int', 2, tag='x')
        m.fit(make_ds(ctx, backend, COLS, rows2))
        stats_of(ctx, m, rows2, None)
        for u in {r[0] for r in rows} - {r[0] for r in rows2}:
            ctx.check(attempt(m.predict, u, rows2[0][1])[1] is not None, 'users of a previous fit are unknown')


def scaling(ctx, n, lo):
    rows = [(1, 10 + k, ctx.real(f'r{k}', lo, 5)) for k in range(n)]
    ds = make_ds(ctx, 'mem', COLS, rows)
    m = base_class()(verbose=False)
    m.answer = lambda u, i: 1.0
    m.fit(ds)
    a, b = m.min_interaction, m.max_interaction
    ctx.assume(b - a > 0.01)
    v = ctx.real('v', -9, 9)
    if not hasattr(m, '_standardize_value') or not hasattr(m, '_rescale_value'):
        core.raise_unsupported('standardisation is done elsewhere')
    x = m._standardize_value(v)
    ctx.check_close(m._rescale_value(x), v, 'rescaling undoes standardisation')
    ctx.check_close(m._standardize_value(m._rescale_value(v)), v, 'standardisation undoes rescaling', tol=1e-5)
    ctx.check_close(m._standardize_value(a), 0, 'the smallest interaction is standardised to 0')
    ctx.check_close(m._standardize_value(b), 1, 'the largest interaction is standardised to 1')
    ctx.check_close(m._rescale_value(0), a, '0 is rescaled to the smallest interaction')
    ctx.check_close(m._rescale_value(1), b, '1 is rescaled to the largest interaction')
    ctx.check(Implies(And(v >= a, v <= b), And(x >= -1e-9, x <= 1 + 1e-9)), 'standardised values are in [0, 1]')


def copying(ctx, backend, n):
    rows = rows_of(ctx, 'perm', n)
    ds = make_ds(ctx, backend, COLS, rows, ids=ctx.bool('ids'))
    had = ds.has_internal_ids
    m = base_class()(verbose=False)
    m.answer = lambda u, i: 1.0
    copy = ctx.bool('copy')
    m.fit(ds, copy_dataset=copy)
    ctx.check((m.interaction_dataset is ds) == (not copy), 'dataset used by the model')
    ctx.check(ds.has_internal_ids == (had or not copy), 'the dataset of the caller is only changed when it is not copied')
    if not copy:
        return
    check_model(ctx, ds, Model(COLS, rows).assign() if had else Model(COLS, rows), backend, 'dataset of the caller')
    ds.apply('interaction', lambda x: x + 1)
    ds.drop([0], copy=False)
    check_model(ctx, m.interaction_dataset, Model(COLS, rows).assign(), backend, 'dataset of the model')
    stats_of(ctx, m, rows, ds)


def shipped(ctx, cls, backend, kind):
    import DRecPy.Recommender as R
    import DRecPy.Recommender.Baseline as B
    U, I = IDS[kind]
    rows = [(U[0], I[0], 3.0, 1), (U[0], I[1], 4.0, 2), (U[1], I[1], 2.0, 3), (U[0], I[2], 5.0, 4), (U[1], I[0], 2.5, 5)]
    ds = make_ds(ctx, backend, COLS + ['timestamp'], rows)
    kw = {'CDAE': dict(hidden_factors=2), 'DMF': dict(user_factors=[2], item_factors=[2]), 'Caser': dict(L=2, T=1, d=1, n_v=1, n_h=2)}.get(cls, dict(k=2, m=0, sim_metric='jaccard', use_averages=True))
    m = getattr(B if cls.endswith('KNN') else R, cls)(verbose=False, **kw)
    u = ctx.int('u', -1, 6) if kind != 'str' else ctx.choice('u', ['a', 'b', '', 'zz'])
    i = ctx.int('i', -1, 7) if kind != 'str' else ctx.choice('i', ['x', 'y', 'z', '', 'a'])
    skip = ctx.bool('skip')
    if ctx.bool('early'):
        for call in (lambda: m.predict(u, i, skip_errors=skip), lambda: m.rank(u, [i]), lambda: m.recommend(u)):
            ctx.check(attempt(call)[1] is not None, 'a model that is not fitted must raise')
        return
    m.fit(ds, epochs=0)
    ctx.check((m.n_users, m.n_items, m.n_rows, m.min_interaction, m.max_interaction) == (2, 3, 5, 2.0, 5.0), 'statistics of the training data')
    ku, ki = Or(*[veq(u, x) for x in U[:2]]), Or(*[veq(i, x) for x in I[:3]])
    ku, ki = bool(ku), bool(ki)
    got, e = attempt(m.predict, u, i, skip_errors=skip)
    if not ku or not ki or cls == 'Caser':
        ctx.check((e is None) == skip, 'unknown users and items raise unless errors are skipped')
        ctx.check(got is None, 'nothing is predicted for unknown users and items')
    else:
        ctx.check(e is None, f'prediction failed: {e!r}')
        ctx.check(got is not None and getattr(got, 'shape', ()) in ((), (1,)), 'one value is predicted')
    got, e = attempt(m.rank, u, [i], novelty=False)
    ctx.check((e is None) == ku, 'exactly the known users can be ranked for')
    if e is None:
        ctx.check(len(got) == (1 if ki else 0) and all(bool(veq(x, i)) for _, x in got), 'items ranked')
    got, e = attempt(m.recommend, u, novelty=False)
    ctx.check((e is None) == ku, 'exactly the known users get recommendations')
    if e is None:
        ctx.check(sorted(x for _, x in got) == sorted(I[:3]), 'items recommended')


def trainables(ctx):
    from symx.boot import lib
    tf = lib('tensorflow')
    m = base_class()(verbose=False)
    v = tf.Variable([1.0, 2.0])
    l = tf.keras.layers.Dense(2)
    k = ctx.choice('k', ['none', 'str', 'num', 'var', 'layer', 'both'])
    reg = {'none': [None], 'str': ['w'], 'num': [3.5], 'var': [v], 'layer': [l], 'both': [v, l, tf.Variable([3.0])]}[k]
    _, e = attempt(m._register_trainables, reg)
    ctx.check((e is not None) == (k in ('none', 'str', 'num')), 'only variables, layers and models can be registered')
    n = {'var': (1, 0), 'layer': (0, 1), 'both': (2, 1)}.get(k, (0, 0))
    ctx.check((len(m.trainable_weights), len(m.trainable_layers)) == n, 'registered trainables')


def scenarios(tier):
    T = tier == 'thorough'
    S = lambda nm, fn, w=2, **kw: Scenario(nm, fn, kw, weight=w)
    out = [S('trainables', trainables, 1), S('scaling.1', scaling, n=2, lo=1.5), S('scaling', scaling, n=2, lo=-5), S('scaling.low', scaling, n=3, lo=0.5)]
    for b in ('mem', 'db'):
        for kind in ('int', 'perm', 'str'):
            big = T or (b == 'mem' and kind != 'str')
            out.append(S(f'{b}.predict.{kind}', predict, backend=b, kind=kind, n=3 if big else 2))
            out.append(S(f'{b}.lists.{kind}', lists, backend=b, kind=kind, n=3 if T or (b == 'mem' and kind == 'perm') else 2))
        out.append(S(f'{b}.stats', stats, backend=b, n=4 if T else 3, again=False))
        out.append(S(f'{b}.stats.again', stats, backend=b, n=3 if T else 2, again=True))
        out.append(S(f'{b}.copying', copying, backend=b, n=3 if T else 2))
    for c in ('UserKNN', 'ItemKNN', 'CDAE', 'DMF', 'Caser'):
        out.append(S(f'{c}.perm', shipped, 1, cls=c, backend='mem', kind='perm'))
        out.append(S(f'{c}.int', shipped, 1, cls=c, backend='db' if c != 'DMF' or T else 'mem', kind='int'))
        out.append(S(f'{c}.str', shipped, 1, cls=c, backend='mem', kind='str'))
    return out
