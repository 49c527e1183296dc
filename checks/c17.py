"""C17: recommendation evaluation scores each user against the right ground truth."""
from symx.kit import *
from checks.evalkit import *

BUDGET = {'quick': 240, 'thorough': 600}
OPTS = {'pool': 'any', 'max_draws': 40, 'int_hash': 'eq'}
BOUNDS = {
    'quick': '2..4 test rows over up to 2..3 users with arbitrary interactions and threshold, sample sizes none or 1..2, every draw and task order, every single pre-emption of 2 tasks, model answers among '
             '(test items, other items, mixed, nothing, failure), cut-offs 1 and [1, 3], arbitrary metric values and metric failures; training or separate test data; '
             'string ids; both backends; default metrics against their definitions',
    'thorough': '5 test rows',
}
OUTSIDE = 'more users or rows; repeated user-item pairs in the test set; several pre-emptions (thorough: more than two), pre-emption of tasks on databases'


MODES = [(False, True, False, True, None), (True, False, True, False, 2.5)]


def run(ctx, backend, n, kind='int', npos=None, train=False, users=2, answers=('mix', 'rev', 'other', 'none', 'fail'), fails=False, ks=1, limit=False, lo=0.5, pattern=None, mode=None):
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    us = [5, 3, 4][:users] if kind == 'int' else ['b c', 'a, d', "o'c"][:users]
    its = [10, 21, 2, 13] if kind == 'int' else ['x y', 'y', 'z,', 'w']
    rows = []
    for i in range(n):
        u = us[pattern[i]] if pattern else us[0] if i == 0 else us[ctx.cint(f'u{i}', 0, min(i, users - 1))]
        rows.append((u, its[(i + 1) % len(its)], ctx.real(f'v{i}', lo, 5)))
    thr = ctx.real('thr', 0, 5)
    ds = make_ds(ctx, backend, COLS, rows)
    tds = ds if train else make_ds(ctx, backend, COLS, [(us[0], its[0], 1.0), (us[-1], its[1], 5.0)])

    def answer(u, want):
        a = ctx.choice(f'ans.{u}', list(answers))
        items = {'mix': its[:3], 'rev': its[::-1], 'other': [its[0], 'q' if kind == 'str' else 77], 'none': [], 'fail': None}[a]
        return None if items is None else [(1.0, i) for i in items[:want]]

    model = FakeModel(ctx, thr, len(its), tds, answer)
    rec = Rec(ctx, fails)
    rec.model = model
    Full, Few = metric_classes()
    names = ['F', 'G']
    nov, verb, own, explicit, low = MODES[mode] if mode is not None else ctx.choice('mode', MODES)
    ks_ = [1] if ks == 1 else [3, 1] if nov else [1, 3]
    kw = dict(metrics=[Full(rec, 'F'), Few(rec, 'G')], k=1 if ks == 1 else list(ks_), novelty=nov, seed=3, max_concurrent_threads=2, verbose=verb)
    if low is not None:
        kw['ignore_low_predictions_threshold'] = low
    if not train or explicit:
        kw['ds_test'] = ds
    if own:
        kw['interaction_threshold'] = thr
        model.interaction_threshold = thr + 1
    if npos:
        kw['n_pos_interactions'] = npos
    lim = None
    if limit:
        lim = kw['n_test_users'] = ctx.cint('limit', 1, 3)
    res = recommendation_evaluation(model, **kw)
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    eligible = []
    U = distinct([r[0] for r in rows])
    for u in U:
        pos = [r for r in rows if r[0] == u and bool(r[2] >= thr)]
        if len(pos) < (npos or 1):
            ctx.check(u not in model.asked, 'a user without enough positives was evaluated')
            continue
        eligible.append(u)
        if u not in model.asked:
            ctx.check(lim is not None, 'a user was not evaluated')
            continue
        (want, t), nv, _ = model.asked[u]
        ctx.check(want == max(ks_), 'number of requested recommendations')
        ctx.check(bool(nv) == nov, 'novelty')
        ctx.check(t == low, 'threshold on predictions')

    def truth(u, c):
        pi = {r[1]: r[2] for r in rows if r[0] == u and bool(r[2] >= thr)}
        ctx.check(len(set(c['rel'])) == len(c['rel']) == (npos or len(pi)) and set(c['rel']) <= set(pi), 'relevant items passed to a metric')
        if c['relevances'] is None:
            return
        ctx.check(set(c['relevances']) == set(c['rel']) | set(c['recs']), 'items with relevances')
        val = {r[1]: r[2] for r in rows if r[0] == u}
        for i, v in c['relevances'].items():
            ctx.check(v == val.get(i, 0), 'relevance of an item')
        ctx.check(c['best'] in c['rel'], 'the best item is not relevant')
        ctx.check(And(*[val[c['best']] >= val[i] for i in c['rel']]), 'the best item is not the most relevant one')

    for c in rec.calls:
        for i in c['rel']:
            ctx.cover(f'item {int(i)} is chosen' if not isinstance(i, str) else i)
    for u in model.asked:
        ctx.cover(f'user {u} is chosen')
    calls_ok(ctx, rec, model, names, ks_, truth)
    averages(ctx, res, rec, names, ks_)
    if lim is not None:
        ctx.check(len(model.asked) <= lim, 'more users than requested were evaluated')
        ctx.check(len(model.asked) >= min(lim, len(U)) - (len(U) - len(eligible)), 'fewer users than requested were evaluated')


def defaults(ctx, backend):
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    import math
    rows = [(1, i, v) for i, v in ((0, 4), (1, 1), (2, 3))]
    ds = make_ds(ctx, backend, COLS, rows)
    perm = ctx.choice('perm', [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2], [1], [7, 0, 8, 2]])
    k = ctx.cint('k', 1, 4)
    model = FakeModel(ctx, 3, 3, ds, lambda u, n: [(1.0, i) for i in perm[:n]])
    res = recommendation_evaluation(model, k=k, verbose=False)
    top = perm[:k]
    hits = len({0, 2} & set(top))
    val = {7: 0, 8: 0, **dict((i, v) for _, i, v in rows)}
    dcg = lambda xs: sum((2 ** val[i] - 1) / math.log2(2 + j) for j, i in enumerate(xs))
    known = sorted({0, 2} | set(top), key=lambda i: -val[i])
    want = {'Precision': hits / len(top), 'Recall': hits / 2, 'HitRatio': hits / 2, 'NDCG': dcg(top) / dcg(known[:k])}
    ctx.check(set(res) == {f'{m}@{k}' for m in want}, 'default metrics')
    for m, v in want.items():
        ctx.check_close(res[f'{m}@{k}'], v, f'default {m}', tol=0.0000501)


def args(ctx):
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    from DRecPy.Evaluation.Metrics import MSE, Precision
    ds = make_ds(ctx, 'mem', COLS, [(1, 0, 1.0), (1, 1, 0.0)])
    model = FakeModel(ctx, 0.5, 2, ds, lambda u, n: [(1.0, i) for i in (0, 1)])
    kind = ctx.choice('kind', ['users', 'pos', 'k', 'klist', 'metrics', 'tuple'])
    v = ctx.int('v', -2, 2)
    kw = {'users': dict(n_test_users=v), 'pos': dict(n_pos_interactions=v), 'k': dict(k=v), 'klist': dict(k=[2, v]), 'metrics': dict(metrics=[MSE()]),
          'tuple': dict(metrics=(Precision(),))}[kind]
    _, e = attempt(recommendation_evaluation, model, ds, verbose=False, **kw)
    if kind in ('metrics', 'tuple') or bool(v <= 0):
        ctx.check(e is not None, 'invalid parameters must be rejected')
    else:
        ctx.check(e is None, 'valid parameters were rejected')


def scenarios(tier):
    T = tier == 'thorough'
    n = 5 if T else 4
    S = lambda nm, **kw: Scenario(nm, run, kw, weight=3)
    out = [Scenario('args', args), Scenario('mem.defaults', defaults, dict(backend='mem')), Scenario('db.defaults', defaults, dict(backend='db'))]
    for b in ('mem', 'db'):
        nb = n if b == 'mem' else n - 1
        out.append(S(f'{b}.all', backend=b, n=nb, answers=('mix', 'fail')))
        out.append(S(f'{b}.answers', backend=b, n=2, lo=0, train=True))
        out.append(S(f'{b}.str', backend=b, n=2, kind='str', train=True, fails=True, answers=('rev', 'fail')))
        out.append(S(f'{b}.pos', backend=b, n=nb, npos=1, answers=('mix',), ks=2))
        out.append(S(f'{b}.pos2', backend=b, n=nb, npos=2, answers=('rev',)))
        out.append(S(f'{b}.limit', backend=b, n=nb, users=3, answers=('rev',), limit=True, train=True))
    pre = dict(preempt=2 if T else 1)
    out.append(Scenario('pre.all', run, dict(backend='mem', n=2, answers=('mix',), lo=1.5, pattern=[0, 1], mode=0 if T else 1), weight=3, opts=pre))
    out.append(Scenario('pre.fails', run, dict(backend='mem', n=2, answers=('mix', 'fail'), lo=1.5, pattern=[0, 1], fails=True, train=True, mode=0), weight=3, opts=pre))
    for b in ('mem', 'db'):
        out.append(Scenario(f'{b}.choice', run, dict(backend=b, n=3, npos=1, users=1, answers=('mix',)), goals=[f'item {i} is chosen' for i in (21, 2, 13)]))
        out.append(Scenario(f'{b}.choice.users', run, dict(backend=b, n=3, users=3, answers=('mix',), pattern=[0, 1, 2], limit=True), goals=[f'user {u} is chosen' for u in (5, 3, 4)]))
    return out
