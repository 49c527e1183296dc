"""C18: rankings and recommendations are complete, ordered and correctly scored."""
import math

from symx import core
from symx.boot import lib
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
REAL_TF = True
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': '2-3 users, 3-4 items with integer or string ids in any order of appearance, every set of rated items, every sublist of the items with or without unknown ids, n from 0 to the number '
             'of items and omitted, arbitrary real or missing scores for a model written against the base class, arbitrary thresholds; user- and item-based neighbourhood models with arbitrary '
             'ratings, both aggregations, with and without averages; CDAE and Caser with arbitrary output biases, DMF with chosen weights; both backends',
    'thorough': '4 items for every scenario of the base class',
}
OUTSIDE = 'item lists with repeated items; training of the deep models (weights are set after fitting for no epochs); Caser with fewer than L records for the user'


def num(t):
    a = t.numpy() if hasattr(t, 'numpy') else t
    if hasattr(a, 'ravel'):
        a = a.ravel()[0]
    return a if is_sym(a) else float(a)


def check_list(ctx, got, cand, n, exact=True, tol=0):
    """got: [(score, raw id)]; cand: raw id -> score"""
    ids = [i for _, i in got]
    ctx.check(len(set(ids)) == len(ids), 'an item is listed twice')
    ctx.check(all(i in cand for i in ids), 'an item that does not belong in the list')
    ctx.check(len(got) == min(n, len(cand)), 'number of listed items')
    sc = [num(s) for s, _ in got]
    for s, i in zip(sc, ids):
        if tol:
            ctx.check_close(s, cand[i], 'score of an item', tol=tol)
        else:
            ctx.check(veq(s, cand[i]), 'score of an item')
    for a, b in zip(sc, sc[1:]):
        ctx.check(a >= b, 'best first')
    for i, s in cand.items():
        if i not in ids and sc:
            ctx.check(s <= sc[-1] + tol, 'a better item was dropped')


def scripted(score):
    from DRecPy.Recommender import RecommenderABC

    class M(RecommenderABC):
        def _pre_fit(self, *a, **k): pass
        def _sample_batch(self, *a, **k): raise NotImplementedError
        def _predict_batch(self, *a, **k): raise NotImplementedError
        def _compute_batch_loss(self, *a, **k): raise NotImplementedError
        def _predict(self, uid, iid, **k): return score(uid, iid)
    return M


ITEMS = {'int': [30, 10, 20, 40], 'str': ['b', 'z', 'a', 'c']}


def build(ctx, backend, kind, n, rated=None):
    """user U rates the items in `rated` (chosen), another user all of them; some records precede U's"""
    items = ITEMS[kind][:n]
    U, V = (7, 5) if kind == 'int' else ('u', 'v')
    first = ctx.bool('first')
    mine = [i for k, i in enumerate(items) if (ctx.bool(f'rated{k}') if rated is None else rated[k])]
    a = [(U, i, 3.0) for i in mine]
    b = [(V, i, 4.0) for i in items]
    rows = a + b if first else b + a
    if not mine:
        rows.append((U, 'none' if kind == 'str' else 99, 3.0))
        items = items + [rows[-1][1]]
        mine = [rows[-1][1]]
    return make_ds(ctx, backend, COLS, rows), U, items, mine


def query(ctx, m, U, items, mine, score, recommend, sub, bad='none', tol=0, small_n=False):
    """rank or recommend and compare with the scores"""
    nov = ctx.bool('novelty')
    if recommend:
        thr = ctx.real('thr', -9, 9) if recommend == 'thr' else None
        n = ctx.choice('n', [None] + list(range(0, len(items) + 2))) if not small_n else ctx.choice('n', [None, 2])
        kw = {} if n is None else {'n': n}
        if thr is not None:
            kw['interaction_threshold'] = thr
        got = m.recommend(U, novelty=nov, **kw)
        cand = {i: score(i) for i in items if not (nov and i in mine)}
        cand = {i: s for i, s in cand.items() if s is not None}
        if thr is not None:
            n_ = len(items) if n is None else n
            # the best n are chosen first: the result is the part of them above the threshold
            cand = {i: s for i, s in cand.items() if bool(s >= thr)}
        check_list(ctx, got, cand, len(items) if n is None else n, tol=tol)
        return
    lst = [i for k, i in enumerate(items) if (ctx.bool(f'in{k}') if sub else True)]
    if sub and len(lst) > 1 and ctx.bool('rev'):
        lst = lst[::-1]
    known = len(lst)
    unknown = [u for u in ([12345, 0] if isinstance(items[0], int) else ['?', '']) if u not in items]
    if bad != 'none':
        lst = lst[:1] + unknown[:1] + lst[1:]
        if ctx.bool('bad2'):
            lst = lst + unknown[1:]
    skip = ctx.bool('skip') if bad == 'any' else True
    n = ctx.choice('n', [None] + list(range(0, known + 2))) if not small_n else ctx.choice('n', [None, min(1, known)])
    kw = {} if n is None else {'n': n}
    keep = list(lst)
    got, e = attempt(m.rank, U, lst, novelty=nov, skip_invalid_items=skip, **kw)
    ctx.check(lst == keep, 'the item list was modified')
    if not skip and bad != 'none':
        ctx.check(e is not None, 'an unknown item must be rejected')
        return
    if n is not None and n > known:
        ctx.check(e is not None, 'more items than given cannot be requested')
        return
    ctx.check(e is None, f'ranking failed: {e!r}')
    if e is not None:
        return
    cand = {i: score(i) for i in items if i in lst and not (nov and i in mine)}
    cand = {i: s for i, s in cand.items() if s is not None}
    check_list(ctx, got, cand, known if n is None else n, tol=tol)


def base(ctx, backend, kind, n, recommend=False, sub=False, bad='none', missing=False, rated=None, small_n=False):
    ds, U, items, mine = build(ctx, backend, kind, n, rated)
    table = {}

    def score(i):
        if i not in table:
            table[i] = None if missing and ctx.bool(f'none{items.index(i)}') else ctx.real(f's{items.index(i)}', -9, 9)
        return table[i]

    def by_id(uid, iid):
        ctx.check(ds.uid_to_user(uid) == U, 'user asked for')
        return score(ds.iid_to_item(iid))
    m = scripted(by_id)(verbose=False)
    m.fit(ds)
    query(ctx, m, U, items, mine, score, recommend, sub, bad, small_n=small_n)


def unknown_user(ctx, backend):
    ds, U, items, mine = build(ctx, backend, 'int', 3, (1, 0, 0))
    m = scripted(lambda u, i: 1.0)(verbose=False)
    ask = ctx.choice('ask', ['rank', 'recommend'])
    call = (lambda u: m.rank(u, items)) if ask == 'rank' else (lambda u: m.recommend(u))
    _, e = attempt(call, U)
    ctx.check(e is not None, 'a model that is not fitted cannot be asked')
    m.fit(ds)
    u = ctx.int('u', -2, 9)
    got, e = attempt(call, u)
    ctx.check(Iff(e is None, Or(u == 5, u == 7)), 'exactly the known users can be asked for')


def knn(ctx, cls, agg, avg, recommend, k=2, sub=False, backend='mem', m=0, shrinkage=None, n=3):
    import DRecPy.Recommender.Baseline as B
    items = ITEMS['int'][:n]
    users = [7, 5, 6]
    pats = [(a, b) for a in range(1, 2 ** n) for b in range(2 ** n)]
    a, b = ctx.choice('pattern', pats)
    rows = [(u, i, ctx.real(f'r{u}.{j}', 1.5, 5)) for u, p in zip(users, (a, b, 2 ** n - 1)) for j, i in enumerate(items) if p >> j & 1]
    ds = make_ds(ctx, backend, COLS, rows)
    mod = getattr(B, cls)(k=k, m=m, sim_metric='jaccard', aggregation=agg, shrinkage=shrinkage, use_averages=avg, verbose=False)
    mod.fit(ds)
    table = {}

    def score(i):
        if i not in table:
            table[i] = mod.predict(7, i, skip_errors=True)
        return table[i]
    query(ctx, mod, 7, items, [i for j, i in enumerate(items) if a >> j & 1], score, recommend, sub, small_n=True)


def need(m, *names):
    for n in names:
        if not hasattr(m, n):
            core.raise_unsupported(f'attribute {n} of the model')
    return [getattr(m, n) for n in names]


def sig(x):
    t = lib('tensorflow').sigmoid(lib('tensorflow').convert_to_tensor(x, dtype=lib('tensorflow').float32))
    return num(t)


def cdae(ctx, recommend, free, n=3, backend='mem'):
    from DRecPy.Recommender import CDAE
    ds, U, items, mine = build(ctx, backend, 'int', n)
    thr = 3.5 if not free and ctx.bool('above') else 1e-3
    m = CDAE(hidden_factors=2, verbose=False, interaction_threshold=thr)
    m.fit(ds, epochs=0)
    W, W_, V, b, b_ = need(m, 'W', 'W_', 'V', 'b', 'b_')
    I = len(items)
    uid = ds.user_to_uid(U)
    if free:
        out = [ctx.real(f'b{i}', -3, 3) for i in range(I)]
        for i in range(I):
            for j in range(i):
                ctx.assume(Or(out[i] == out[j], out[i] - out[j] > 0.01, out[j] - out[i] > 0.01))
        w = [[0.0, 0.0] for _ in range(I)]
        w_ = [[0.0] * I, [0.0] * I]
        v, bb = [[0.0, 0.0], [0.0, 0.0]], [0.0, 0.0]
        pre = out
    else:
        w = [[0.5 - 0.3 * i, 0.2 * i] for i in range(I)]
        w_ = [[0.7 - 0.4 * i for i in range(I)], [-0.3 + 0.25 * i * i for i in range(I)]]
        v, bb = [[0.1, -0.2], [-0.6, 0.9]], [0.05, -0.15]
        out = [0.3, -0.1, 0.2, 0.15, -0.25][:I]
        x = [1 if ds.iid_to_item(i) in mine and 3.0 >= thr else 0 for i in range(I)]
        s = lambda z: 1 / (1 + math.exp(-z))
        h = [s(sum(x[i] * w[i][k] for i in range(I)) + v[uid][k] + bb[k]) for k in (0, 1)]
        pre = [sum(h[k] * w_[k][i] for k in (0, 1)) + out[i] for i in range(I)]
    for var, val in ((W, w), (W_, w_), (V, v), (b, bb), (b_, out)):
        var.assign(val)
    table = {it: sig(pre[ds.item_to_iid(it)]) for it in items}
    for it in items:
        ctx.check_close(num(m.predict(U, it)), table[it], 'predicted value', tol=1e-5)
    query(ctx, m, U, items, mine, lambda i: num(m.predict(U, i)), recommend, not recommend, small_n=not recommend)


def dmf(ctx, recommend, norm, backend='mem'):
    from DRecPy.Recommender import DMF
    items, users = [30, 10, 20], [7, 5]
    a = ctx.choice('pattern', list(range(1, 8)))
    val = ctx.choice('val', [1.0, 4.0])
    rows = [(5, 30, 2.0), (5, 10, 5.0)] + [(7, i, 3.0 if j else val) for j, i in enumerate(items) if a >> j & 1] + [(5, 20, 3.5)]
    ds = make_ds(ctx, backend, COLS, rows)
    m = DMF(user_factors=[2], item_factors=[2], l2_norm_vectors=norm, verbose=False)
    m.fit(ds, epochs=0)
    un, inn = need(m, 'user_nn', 'item_nn')
    import numpy as np
    uw, ub = np.array([[0.4, -0.2], [0.1, 0.6], [-0.3, 0.5]]), np.array([0.1, 0.05])
    iw, ib = np.array([[0.3, 0.2], [-0.1, 0.7]]), np.array([0.02, -0.03])
    un.set_weights([uw, ub])
    inn.set_weights([iw, ib])
    R = np.zeros((2, 3))
    for u, i, r in rows:
        R[ds.user_to_uid(u), ds.item_to_iid(i)] += r
    vals = [r[2] for r in rows]
    lo, hi = min(vals), max(vals)
    lo = 0 if lo == 1 else lo
    unit = lambda x: x / math.sqrt(max((x * x).sum(), 1e-12))

    def want(i):
        x, y = R[ds.user_to_uid(7)], R[:, ds.item_to_iid(i)]
        if norm:
            x, y = unit(x), unit(y)
        p, q = np.maximum(x @ uw + ub, 0), np.maximum(y @ iw + ib, 0)
        return lo + (hi - lo) * max(1e-6, float((unit(p) * unit(q)).sum()))
    for i in items:
        ctx.check_close(num(m.predict(7, i)), want(i), 'predicted value', tol=1e-4)
    query(ctx, m, 7, items, [i for j, i in enumerate(items) if a >> j & 1], lambda i: num(m.predict(7, i)), recommend, not recommend, tol=1e-5, small_n=not recommend)


def caser(ctx, recommend, sort=True, sub=True, backend='mem', n=4):
    from DRecPy.Recommender import Caser
    import numpy as np
    items = ITEMS['int'][:n]
    mine = [items[1], items[3], items[2]]
    ts = [ctx.int(f't{k}', 1, 9) for k in range(3)] if sort else [1, 2, 3]
    if sort:
        ctx.assume(And(ts[0] != ts[1], ts[0] != ts[2], ts[1] != ts[2]))
    rows = [(5, i, 4.0, 1) for i in items] + [(7, i, 3.0, t) for i, t in zip(mine, ts)]
    cols = COLS + (['timestamp'] if sort else ['other'])
    ds = make_ds(ctx, backend, cols, rows)
    m = Caser(L=2, T=1, d=1, n_v=1, n_h=2, verbose=False, **({} if sort else {'sort_column': None}))
    m.fit(ds, epochs=0)
    m.rank(7, items, novelty=False)
    ue, ie, cv, ch, d0, w, b = need(m, 'user_embeddings', 'item_embeddings', 'conv_v', 'convs_h', 'dense_0', 'dense_1_W', 'dense_1_b')
    e, g = [0.3, 0.8, -0.5, 1.1], [0.4, -0.7]
    k0, k1 = 0.6, 1.3
    ww = [[0.2, 0.5], [-0.3, 0.1], [0.9, -0.4], [0.05, 0.7]]
    bias = [ctx.real(f'b{i}', -3, 3) for i in range(n)]
    A = lambda x: np.array(x, dtype=np.float32)
    ue.set_weights([A(g).reshape(2, 1)])
    ie.set_weights([A(e[:n]).reshape(n, 1)])
    cv.set_weights([A([k0, k1]).reshape(2, 1, 1), A([0.1])])
    for i, h in enumerate(ch):
        h.set_weights([A([0] * (i + 1) * 2).reshape(i + 1, 1, 2), A([0, 0])])
    d0.set_weights([A([1.5, 0, 0, 0, 0]).reshape(5, 1), A([0.2])])
    w.set_weights([A(ww[:n])])
    b.set_weights([[[x] for x in bias] if is_sym(bias[0]) else A(bias).reshape(n, 1)])
    seq = [i for _, i in sorted(zip(ts, mine), key=lambda x: x[0])][-2:]
    z = max(0.0, 1.5 * (k0 * e[ds.item_to_iid(seq[0])] + k1 * e[ds.item_to_iid(seq[1])] + 0.1) + 0.2)
    u = g[ds.user_to_uid(7)]

    def score(i):
        q = ds.item_to_iid(i)
        return z * ww[q][0] + u * ww[q][1] + bias[q]
    # ties and near ties are not compared: arithmetic is single precision in the real library
    sc = [score(i) for i in items]
    for x in range(n):
        for y in range(x):
            ctx.assume(Or(sc[x] - sc[y] > 0.01, sc[y] - sc[x] > 0.01))
    query(ctx, m, 7, items, mine, score, recommend, sub and not recommend, tol=1e-4, small_n=True)
    _, ex = attempt(m.predict, 7, items[0])
    ctx.check(ex is not None, 'point predictions are not supported')


def scenarios(tier):
    T = tier == 'thorough'
    S = lambda nm, fn, w=1, **kw: Scenario(nm, fn, kw, weight=w)
    n = 4 if T else 3
    out = []
    for b in ('mem', 'db'):
        x = 1 if b == 'mem' or T else 0
        out.append(S(f'{b}.rank', base, 3, backend=b, kind='int' if x else 'str', n=3 if x else 2, sub=True, small_n=not T))
        out.append(S(f'{b}.rank.n', base, 2, backend=b, kind='str', n=n if x else 2, rated=(0, 1, 0, 0) if x else None))
        out.append(S(f'{b}.rank.bad', base, 1, backend=b, kind='int', n=2, sub=True, bad='any', missing=True, small_n=not x))
        out.append(S(f'{b}.rank.missing', base, 2, backend=b, kind='int', n=n, missing=True, rated=(1, 0, 0, 1), small_n=not x))
        out.append(S(f'{b}.rec', base, 2, backend=b, kind='int', n=n if x else 2, recommend=True, small_n=not x))
        out.append(S(f'{b}.rec.missing', base, 2, backend=b, kind='str', n=3, recommend=True, missing=True, rated=(0, 0, 1, 0), small_n=not x))
        out.append(S(f'{b}.rec.thr', base, 2, backend=b, kind='str', n=3, recommend='thr', rated=(0, 1, 0, 0), missing=False, small_n=not x))
        out.append(S(f'{b}.user', unknown_user, 1, backend=b))
    out.append(S('mem.four', base, 3, backend='mem', kind='int', n=4, rated=(0, 0, 1, 0)))
    for c in ('UserKNN', 'ItemKNN'):
        for agg in ('mean', 'weighted_mean'):
            for avg in (True, False) if T or agg == 'mean' or c == 'ItemKNN' else (False,):
                out.append(S(f'{c}.{agg}.{avg}.rec', knn, 2, cls=c, agg=agg, avg=avg, recommend=True, k=1 if agg == 'mean' else 2))
        out.append(S(f'{c}.rank', knn, 2, cls=c, agg='weighted_mean', avg=True, recommend=False, sub=True, k=1, shrinkage=1, n=3 if T else 2))
        out.append(S(f'{c}.rank2', knn, 2, cls=c, agg='mean', avg=False, recommend=False, m=2))
        out.append(S(f'{c}.db', knn, 2, cls=c, agg='mean', avg=True, recommend=False, n=2, backend='db'))
    for r in (True, False):
        out.append(S(f'cdae.{r}', cdae, 1, recommend=r, free=False))
        out.append(S(f'cdae.free.{r}', cdae, 2, recommend=r, free=True, n=3 if T else 2))
        out.append(S(f'dmf.{r}', dmf, 1, recommend=r, norm=True))
        out.append(S(f'dmf.raw.{r}', dmf, 1, recommend=r, norm=False))
        out.append(S(f'caser.{r}', caser, 2, recommend=r, sort=r))
    out.append(S('caser.sorted', caser, 2, recommend=False, sort=True, sub=False))
    out.append(S('caser.db', caser, 1, recommend=False, sort=True, sub=False, backend='db', n=4))
    return out
