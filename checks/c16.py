"""C16: ranking evaluation scores each user on the right candidates."""
from symx.kit import *
from checks.evalkit import *
from checks.c10 import floor

BUDGET = {'quick': 240, 'thorough': 600}
OPTS = {'pool': 'any', 'shuffle': 'two', 'max_draws': 40, 'int_hash': 'eq'}
BOUNDS = {
    'quick': 'up to 4 test rows over 2 users with arbitrary interactions and threshold, all sample sizes 1..3 or none or any share, every draw and task order, every single pre-emption of 2 tasks at a lock or call, every '
             'model answer among (as given, reversed, first dropped, failure), cut-offs 1 and [2, 1], arbitrary metric values and metric failures; generated '
             'negatives over 3..4 known items whose raw ids are 0..n-1; training or separate test data; string ids; both backends',
    'thorough': '5 test rows',
}
OUTSIDE = ('more users or rows; repeated user-item pairs in the test set; shares times counts are exact reals; several pre-emptions (thorough: more than two), pre-emption of tasks on databases; generated negatives '
           'when raw item ids differ from 0..n-1 (known finding)')


MODES = [(False, True, False, True), (True, False, True, False)]


def run(ctx, backend, n, kind='int', npos=None, nneg=None, gen=False, train=False, users=2, answers=('same', 'rev', 'drop'), ids=None, fails=False, ks=1, limit=False, lo=0.5, pattern=None, mode=None):
    from DRecPy.Evaluation.Processes import ranking_evaluation
    us = [5, 3, 4][:users] if kind == 'int' else ['b c', 'a, d', "o'c"][:users]
    its = ids or ([0, 1, 2, 3] if kind == 'int' else ['x y', 'y', 'z,', 'w'])
    rows = []
    for i in range(n):
        u = us[pattern[i]] if pattern else us[0] if i == 0 else us[ctx.cint(f'u{i}', 0, min(i, users - 1))]
        rows.append((u, its[(i + 1) % len(its)], ctx.real(f'v{i}', lo, 5)))
    if len({r[:2] for r in rows}) < n:
        ctx.prune('repeated pair')
    thr = ctx.real('thr', 0, 5)
    ds = make_ds(ctx, backend, COLS, rows)
    if train:
        tds, trows = ds, rows
    else:
        trows = [(us[0], its[0], ctx.real('t0', 0, 5)), (us[-1], its[1], ctx.real('t1', 0, 5))] + [(99 if kind == 'int' else 'zz', i, 1.0) for i in its]
        tds = make_ds(ctx, backend, COLS, trows)
    ans = {}

    def answer(u, items):
        a = ans[u] = ctx.choice(f'ans.{u}', list(answers))
        items = items if a == 'same' else items[::-1] if a == 'rev' else items[1:]
        return None if a == 'fail' else [(1.0, i) for i in items]

    n_items = len(distinct([r[1] for r in trows]))
    model = FakeModel(ctx, thr, n_items, tds, answer)
    rec = Rec(ctx, fails)
    rec.model = model
    Full, Few = metric_classes()
    names = ['F', 'G']
    nov, verb, own, explicit = MODES[mode] if mode is not None else ctx.choice('mode', MODES)
    kk = 1 if ks == 1 else [2, 1]
    kw = dict(metrics=[Full(rec, 'F'), Few(rec, 'G')], k=kk, novelty=nov, seed=3, max_concurrent_threads=2, verbose=verb)
    if not train:
        kw['ds_test'] = ds
    elif explicit:
        kw['ds_test'] = ds
    ks_ = [1] if ks == 1 else [2, 1]
    if own:     # threshold given explicitly instead of the model's
        kw['interaction_threshold'] = thr
        model.interaction_threshold = thr + 1
    if npos:
        kw['n_pos_interactions'] = npos
    if nneg == 'share':
        nneg = ctx.real('share', 0, 3)
        ctx.assume(nneg > 0)
        kw['n_neg_interactions'] = nneg
    elif nneg:
        kw['n_neg_interactions'] = nneg
    if gen:
        kw['generate_negative_pairs'] = True
    lim = None
    if limit:
        lim = kw['n_test_users'] = ctx.cint('limit', 1, 3)
    res = ranking_evaluation(model, **kw)
    ctx.check(not ctx.__dict__.get('swallowed'), 'a task failed')
    # oracle
    eligible = []
    for u in distinct([r[0] for r in rows]):
        mine = [r for r in rows if r[0] == u]
        pos = [r for r in mine if bool(r[2] >= thr)]
        neg = [r for r in mine if r not in pos]
        want_pos = len(pos) if npos is None else npos
        if len(pos) < want_pos:
            ctx.check(u not in model.asked, 'a user without enough positives was evaluated')
            continue
        if nneg is None:
            want_neg = len(neg)
        else:
            want_neg = floor(nneg * want_pos) if is_sym(nneg) or isinstance(nneg, float) else nneg
            want_neg = int(want_neg) if not is_sym(want_neg) else want_neg.__index__()
        if not gen:
            want_neg = min(want_neg, len(neg))
        seen = {r[1] for r in pos} | {r[1] for r in trows if r[0] == u and bool(r[2] >= thr)}
        if want_neg > len(neg) and n_items - len(seen) < want_neg:
            ctx.check(u not in model.asked, 'a user without enough negatives was evaluated')
            continue
        if want_pos + want_neg == 0:
            ctx.check(u not in model.asked, 'a user without candidates was evaluated')
            continue
        eligible.append(u)
        if u not in model.asked:
            ctx.check(lim is not None, 'a user was not evaluated')
            continue
        cand, nv, _ = model.asked[u]
        cand = list(cand)
        ctx.check(bool(nv) == bool(nov), 'novelty')
        ctx.check(len(cand) == want_pos + want_neg and len(set(cand)) == len(cand), 'number of candidates')
        pi, ni = {r[1]: r[2] for r in pos}, {r[1]: r[2] for r in neg}
        cp = [i for i in cand if i in pi]
        cn = [i for i in cand if i in ni]
        gn = [i for i in cand if i not in pi and i not in ni]
        ctx.check(len(cp) == want_pos, 'number of positive candidates')
        ctx.check(len(cn) == min(want_neg, len(neg)), 'number of test negatives')
        if not gen:
            ctx.check(not gn, 'a candidate is not a test item of the user')
        known = {r[1] for r in trows}
        for i in gn:
            ctx.check(i in known, 'a generated negative is not a known item')
            ctx.check(i not in seen, 'a generated negative is a positive item of the user')

    def truth(u, c):
        cand = model.asked[u][0]
        pi = {r[1]: r[2] for r in rows if r[0] == u and bool(r[2] >= thr)}
        ctx.check(sorted(map(str, c['rel'])) == sorted(str(i) for i in cand if i in pi), 'relevant items passed to a metric')
        if c['relevances'] is None:
            return
        ctx.check(set(c['relevances']) == set(cand), 'items with relevances')
        val = {r[1]: r[2] for r in rows if r[0] == u}
        for i in cand:
            ctx.check(c['relevances'][i] == val.get(i, 0), 'relevance of an item')
        if not c['rel']:
            ctx.check(c['best'] is None, 'best item without relevant items')
        else:
            ctx.check(c['best'] in c['rel'], 'the best item is not relevant')
            ctx.check(And(*[val[c['best']] >= val[i] for i in c['rel']]), 'the best item is not the most relevant one')

    for u in model.asked:
        ctx.cover(f'user {u} is chosen')
        for i in model.asked[u][0]:
            ctx.cover(f'item {int(i)} is chosen' if not isinstance(i, str) else i)
    calls_ok(ctx, rec, model, names, ks_, truth)
    averages(ctx, res, rec, names, ks_)
    total = len(distinct([r[0] for r in rows]))
    if lim is not None:
        ctx.check(len(model.asked) <= lim, 'more users than requested were evaluated')
        ctx.check(len(model.asked) >= min(lim, total) - (total - len(eligible)), 'fewer users than requested were evaluated')


def defaults(ctx, backend):
    """the default metrics, against their definitions"""
    from DRecPy.Evaluation.Processes import ranking_evaluation
    import math
    rows = [(1, i, v) for i, v in ((0, 4), (1, 1), (2, 3))]
    ds = make_ds(ctx, backend, COLS, rows)
    perm = ctx.choice('perm', [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2], [1]])
    model = FakeModel(ctx, 3, 3, ds, lambda u, items: [(1.0, i) for i in perm])
    k = ctx.cint('k', 1, 4)
    res = ranking_evaluation(model, k=k, verbose=False)
    top = perm[:k]
    hits = len({0, 2} & set(top))
    val = dict((i, v) for _, i, v in rows)
    dcg = lambda xs: sum((2 ** val[i] - 1) / math.log2(2 + j) for j, i in enumerate(xs))
    want = {'Precision': hits / len(top), 'Recall': hits / 2, 'HitRatio': hits / 2, 'NDCG': dcg(top) / dcg([0, 2, 1][:k])}
    ctx.check(set(res) == {f'{m}@{k}' for m in want}, 'default metrics')
    for m, v in want.items():
        ctx.check_close(res[f'{m}@{k}'], v, f'default {m}', tol=0.0000501)


def args(ctx):
    from DRecPy.Evaluation.Processes import ranking_evaluation
    from DRecPy.Evaluation.Metrics import MSE, Precision
    ds = make_ds(ctx, 'mem', COLS, [(1, 0, 1.0), (1, 1, 0.0)])
    model = FakeModel(ctx, 0.5, 2, ds, lambda u, items: [(1.0, i) for i in items])
    kind = ctx.choice('kind', ['users', 'pos', 'neg', 'gen', 'k', 'klist', 'metrics', 'tuple'])
    v = ctx.int('v', -2, 2)
    kw = {'users': dict(n_test_users=v), 'pos': dict(n_pos_interactions=v), 'neg': dict(n_neg_interactions=v), 'gen': dict(generate_negative_pairs=True), 'k': dict(k=v),
          'klist': dict(k=[2, v]), 'metrics': dict(metrics=[MSE()]), 'tuple': dict(metrics=(Precision(),))}[kind]
    _, e = attempt(ranking_evaluation, model, ds, verbose=False, **kw)
    if kind in ('gen', 'metrics', 'tuple') or bool(v <= 0):
        ctx.check(e is not None, 'invalid parameters must be rejected')
    else:
        ctx.check(e is None, 'valid parameters were rejected')


def scenarios(tier):
    T = tier == 'thorough'
    n = 4 if T else 3
    def S(nm, draws=40, shuffle='id', **kw):
        if T:
            shuffle = 'two'
        return Scenario(nm, run, kw, weight=3, opts=dict(max_draws=draws, shuffle=shuffle))
    out = [Scenario('args', args), Scenario('mem.defaults', defaults, dict(backend='mem')), Scenario('db.defaults', defaults, dict(backend='db'))]
    pre = dict(preempt=2 if T else 1, shuffle='id')
    out.append(Scenario('pre.all', run, dict(backend='mem', n=2, answers=('rev',), pattern=[0, 1], mode=1), weight=3, opts=pre))
    out.append(Scenario('pre.fails', run, dict(backend='mem', n=2, answers=('same', 'fail'), pattern=[0, 1], fails=True, train=True, mode=0), weight=3, opts=pre))
    if T:
        out.append(Scenario('pre.gen', run, dict(backend='mem', n=2, answers=('same',), pattern=[0, 1], nneg=1, gen=True, mode=1), weight=3, opts=dict(pre, max_draws=5)))
    for b in ('mem', 'db'):
        for np_ in (1, 2):
            out.append(Scenario(f'{b}.choice.{np_}', run, dict(backend=b, n=3, npos=np_, users=1, answers=('same',), pattern=[0, 0, 0], mode=1), goals=[f'item {i} is chosen' for i in (1, 2, 3)], opts=dict(shuffle='id')))
        out.append(Scenario(f'{b}.choice.neg', run, dict(backend=b, n=4, npos=1, nneg=1, users=1, answers=('same',), pattern=[0, 0, 0, 0], mode=0), goals=[f'item {i} is chosen' for i in (0, 1, 2, 3)], opts=dict(shuffle='id')))
        out.append(Scenario(f'{b}.choice.users', run, dict(backend=b, n=3, users=3, answers=('same',), pattern=[0, 1, 2], limit=True, mode=1), goals=[f'user {u} is chosen' for u in (5, 3, 4)], opts=dict(shuffle='id')))
    for b in ('mem', 'db'):
        big = b == 'mem' or T
        out.append(S(f'{b}.all', backend=b, n=n if big else 2, answers=('rev', 'fail') if not T else ('same', 'rev', 'drop', 'fail'), lo=0.5))
        out.append(S(f'{b}.zero', backend=b, n=2, answers=('drop',), lo=0, shuffle='two'))
        out.append(S(f'{b}.str', backend=b, n=2, kind='str', train=True, answers=('drop',), fails=True))
        if big:
            out.append(S(f'{b}.one', backend=b, n=4, users=1, npos=2, nneg=1, train=True, answers=('rev',)))
            out.append(S(f'{b}.pos', backend=b, n=n, npos=1, answers=('same',), fails=not T and True))
            out.append(S(f'{b}.share', backend=b, n=n, nneg='share', users=1, answers=('same',), ks=2))
            out.append(S(f'{b}.limit', backend=b, n=n, users=3 if T else 2, answers=('same',), limit=True, train=True, nneg=1))
            out.append(S(f'{b}.gen', draws=7 if T else 5, backend=b, n=2, npos=1, nneg=2, gen=True, users=1, answers=('same',)))
            out.append(S(f'{b}.gen1', draws=7 if T else 5, backend=b, n=2, nneg=1, gen=True, answers=('same',)))
        out.append(S(f'{b}.gen.train', draws=7, backend=b, n=3, nneg=1, gen=True, train=True, users=1, answers=('same',), ids=[0, 1, 2]))
        out.append(S(f'{b}.gen.raw', draws=4, backend=b, n=2, nneg=1, gen=True, users=1, answers=('same',), ids=[10, 20, 31, 40]))
    return out
