"""C29: a saved and reloaded model answers exactly as the original."""
from symx import core
from symx.kit import *
from checks.c18 import num, need, ITEMS

BUDGET = {'quick': 240, 'thorough': 600}
REAL_TF = True
COLS = ['user', 'item', 'interaction']
OPTS = dict(pickle=True)
BOUNDS = {
    'quick': 'user- and item-based neighbourhood models (both aggregations, with and without averages) fitted on 2-3 users and 2-3 items with every pattern of rated items and arbitrary ratings, '
             'integer or string ids; CDAE and Caser with arbitrary output biases, DMF with chosen weights; predictions for every pair and for unknown ids, rankings with and without novelty, '
             'recommendations, before saving, after saving and after loading; saving and loading twice; the original fitted on other data and saved again over the file; the loaded model after that, and fitted on other data itself (neighbourhood models)',
    'thorough': '3 users and 3 items throughout',
}
OUTSIDE = ('models of database-backed datasets (saving them raises: sqlite connections cannot be written); loading in another process or with other library versions; '
           'models with user-defined members that cannot be pickled; training loaded deep models')


def outcome(fn, *a, **k):
    got, e = attempt(fn, *a, **k)
    if e is not None:
        return ('error', type(e).__name__)
    if isinstance(got, list):
        return ('list', [(num(s), i) for s, i in got])
    return ('value', None if got is None else num(got))


def answers(m, users, items, bad, point=True, thr=None):
    out = []
    for u in users + [bad[0]]:
        for i in items + [bad[1]] if point else []:
            out.append(outcome(m.predict, u, i))
        if u in users[1:]:
            continue
        out.append(outcome(m.predict, u, items[0], skip_errors=True))
        out.append(outcome(m.rank, u, items + [bad[1]], novelty=False))
        out.append(outcome(m.recommend, u, n=2, novelty=True))
    if thr is not None:
        out.append(outcome(m.recommend, users[0], novelty=False, interaction_threshold=thr))
    return out


def same(ctx, a, b, what, tol=0):
    ctx.check([x[0] for x in a] == [y[0] for y in b], f'{what}: kinds of answers')
    vals = []
    for x, y in zip(a, b):
        if x[0] == 'error':
            ctx.check(x[1] == y[1], f'{what}: error')
        elif x[0] == 'value':
            ctx.check((x[1] is None) == (y[1] is None), f'{what}: prediction')
            if x[1] is not None and y[1] is not None:
                vals.append(veq(x[1], y[1]))
        elif x[0] == y[0] == 'list':
            ctx.check([i for _, i in x[1]] == [i for _, i in y[1]], f'{what}: listed items')
            vals += [veq(s, t) for (s, _), (t, _) in zip(x[1], y[1])]
    ctx.check(And(*vals) if vals else True, f'{what}: predictions and scores')


def content(m):
    ds = m.interaction_dataset
    return ds.columns, {int(r['rid']): r for r in ds.values()}


def roundtrip(ctx, m, ask, refit, exact=False):
    from DRecPy.Recommender import RecommenderABC
    before, (cols, rows) = ask(m), content(m)
    path = fresh_path(ctx, '.model')
    mode = ctx.choice('mode', ['plain', 'again', 'refit'])
    if mode != 'plain':   # the file exists already
        with open(path, 'w') as f:
            f.write('something else')
    _, e = attempt(m.save, path)
    ctx.check(e is None, f'saving failed: {e!r}'[:160])
    if e is not None:
        return
    if mode == 'plain':
        same(ctx, before, ask(m), 'saving changed the model')
    load = RecommenderABC.load if mode != 'again' else type(m).load
    a, e = attempt(load, path)
    ctx.check(e is None, f'loading failed: {e!r}'[:160])
    if e is not None:
        return
    ctx.check(type(a) is type(m), 'class of the loaded model')
    ctx.check(a is not m and a.interaction_dataset is not m.interaction_dataset, 'the loaded model is the original')
    same(ctx, before, ask(a), 'the loaded model')
    c2, r2 = content(a)
    ctx.check(list(c2) == list(cols) and set(r2) == set(rows), 'dataset of the loaded model')
    ctx.check(And(*[veq(rows[k][c], r2[k][c]) for k in rows for c in cols]), 'rows of the loaded model')
    if mode == 'again':
        _, e = attempt(a.save, path)
        ctx.check(e is None, f'saving a loaded model failed: {e!r}'[:160])
        b, e = attempt(load, path)
        ctx.check(e is None, f'loading again failed: {e!r}'[:160])
        if e is None:
            same(ctx, before, ask(b), 'the model saved and loaded twice')
    elif mode == 'refit':
        refit(m)
        after = ask(m)
        same(ctx, before, ask(a), 'the loaded model after the original was fitted again')
        _, e = attempt(m.save, path)
        ctx.check(e is None, f'saving again failed: {e!r}'[:160])
        b, e = attempt(load, path)
        ctx.check(e is None, f'loading again failed: {e!r}'[:160])
        if e is None:
            ctx.check(b is not a, 'loading twice gives the same object')
            same(ctx, after, ask(b), 'a file saved again')
            if exact:   # no random initial weights
                _, e = attempt(refit, a)
                ctx.check(e is None, f'fitting a loaded model failed: {e!r}'[:160])
                same(ctx, after, ask(a), 'the loaded model fitted on the other data')
                return


def knn(ctx, cls, agg, avg, kind='int', nu=3, ni=2, m=0, k=2, shrinkage=None):
    import DRecPy.Recommender.Baseline as B
    items = ITEMS[kind][:ni]
    users = ([7, 5, 6] if kind == 'int' else ['u', 'v', 'w'])[:nu]
    full = 2 ** ni - 1
    pats = [ctx.choice('p0', list(range(1, full + 1)))] + ([ctx.choice('p1', [1, full])] if nu > 2 else []) + [full]
    rows = [(u, i, ctx.real(f'r{u}.{j}', 1.5, 5)) for u, p in zip(users, pats) for j, i in enumerate(items) if p >> j & 1]
    ds = make_ds(ctx, 'mem', COLS, rows)
    mod = getattr(B, cls)(k=k, m=m, sim_metric='jaccard', aggregation=agg, shrinkage=shrinkage, use_averages=avg, verbose=False)
    mod.fit(ds)
    bad = (99, 98) if kind == 'int' else ('?', '!')
    other = make_ds(ctx, 'mem', COLS, [(u, i, 2.0 + k) for k, (u, i, _) in enumerate(rows[::-1])])
    roundtrip(ctx, mod, lambda x: answers(x, users, items, bad, thr=3), lambda x: x.fit(other.copy()), exact=True)


def deep(ctx, name, kind='int', n=3):
    import DRecPy.Recommender as R
    import numpy as np
    items, users = ITEMS[kind][:n], [7, 5] if kind == 'int' else ['u', 'v']
    bad = (99, 98) if kind == 'int' else ('?', '!')
    p = ctx.choice('pattern', list(range(1, 2 ** n - 1))) if name != 'Caser' else 2 ** n - 2
    rows = [(users[0], i, 3.0 + j) for j, i in enumerate(items) if p >> j & 1] + [(users[1], i, 4.0) for i in items]
    rows = [r + (k,) for k, r in enumerate(rows)]
    ds = make_ds(ctx, 'mem', COLS + ['timestamp'], rows)
    kw = dict(CDAE=dict(hidden_factors=2), DMF=dict(user_factors=[2], item_factors=[2]), Caser=dict(L=2, T=1, d=1, n_v=1, n_h=2))[name]
    m = getattr(R, name)(verbose=False, seed=3, **kw)
    m.fit(ds, epochs=0)
    ids = [ds.iid_to_item(i) for i in range(n)]
    if name == 'DMF':
        un, inn = need(m, 'user_nn', 'item_nn')
        w = [np.array([[0.4, -0.2], [0.1, 0.6], [-0.3, 0.5], [0.2, 0.1]])[:n], np.array([0.1, 0.05])]
        un.set_weights(w)
        inn.set_weights([np.array([[0.3, 0.2], [-0.1, 0.7]]), np.array([0.02, -0.03])])
    else:
        bias = [ctx.real(f'b{i}', -3, 3) for i in range(n)]
        for x in range(n):
            for y in range(x):
                ctx.assume(Or(bias[x] - bias[y] > 0.01, bias[y] - bias[x] > 0.01))
        if name == 'CDAE':
            W, W_, V, b, b_ = need(m, 'W', 'W_', 'V', 'b', 'b_')
            for var, val in ((W, [[0.0, 0.0]] * n), (W_, [[0.0] * n] * 2), (V, [[0.0, 0.0]] * 2), (b, [0.0, 0.0]), (b_, bias)):
                var.assign(val)
        else:
            m.rank(users[0], items, novelty=False)
            w, b = need(m, 'dense_1_W', 'dense_1_b')
            w.set_weights([np.zeros((n, 2), dtype=np.float32)])
            b.set_weights([[[x] for x in bias] if is_sym(bias[0]) else np.array(bias, dtype=np.float32).reshape(n, 1)])
    # training again starts from weights drawn anew: only what was saved before counts
    other = make_ds(ctx, 'mem', COLS + ['timestamp'], rows[::-1])
    roundtrip(ctx, m, lambda x: answers(x, users, items, bad, point=name != 'Caser', thr=None), lambda x: x.fit(other, epochs=0))


def scenarios(tier):
    T = tier == 'thorough'
    S = lambda nm, fn, w=1, **kw: Scenario(nm, fn, kw, weight=w)
    out = []
    for c in ('UserKNN', 'ItemKNN'):
        for agg in ('mean', 'weighted_mean'):
            for avg in (True, False):
                out.append(S(f'{c}.{agg}.{avg}', knn, 2, cls=c, agg=agg, avg=avg, kind='int' if avg else 'str', ni=3 if T else 2))
        out.append(S(f'{c}.options', knn, 2, cls=c, agg='weighted_mean', avg=True, m=2, k=1, shrinkage=1, ni=3 if T else 2))
    for nm in ('CDAE', 'DMF', 'Caser'):
        out.append(S(f'{nm}', deep, 2, name=nm))
        out.append(S(f'{nm}.str', deep, 1, name=nm, kind='str'))
    return out
