"""C30: predicting, evaluating and sampling only read."""
from symx.kit import *
from checks.c18 import num, need
from checks.c29 import answers, same

BUDGET = {'quick': 240, 'thorough': 700}
REAL_TF = True
COLS = ['user', 'item', 'interaction']
OPTS = dict(pool='fifo', max_draws=14, shuffle='two', int_hash='eq')
BOUNDS = {
    'quick': 'neighbourhood models (both kinds, with and without averages) over 4 training and 3 test rows with arbitrary ratings, integer or string ids, test data with or without internal ids, both '
             'backends; each of 11 activities (predictions, rankings, recommendations, the 3 evaluations on test and on training data, both samplers, the 2 pair generators, vectors, reading and '
             'editing what was returned, fitting another model on the same data with or without copying) done twice, and every sequence of two of them on fixed ratings; CDAE, DMF and Caser on fixed weights; arbitrary draws of the samplers and evaluations (fixed ones in sequences and deep models)',
    'thorough': 'every sequence of two activities with arbitrary ratings, of three on fixed ones',
}
OUTSIDE = 'user-defined models, metrics and loss functions that change what they are given; concurrent activities; internal caches (only what can be observed counts)'

THR = 2.5


def state(ctx, ds, m, backend, what):
    """rows, columns and numbering are those of m"""
    check_model(ctx, ds, m, backend, what, proj=False)
    ctx.check(bool(ds.has_internal_ids) == m.ids, f'{what}: internal ids')
    if m.ids:
        for k, u in enumerate(m.umap):
            ctx.check(ds.user_to_uid(u) == k and ds.uid_to_user(k) == u, f'{what}: user numbers')
        for k, i in enumerate(m.imap):
            ctx.check(ds.item_to_iid(i) == k and ds.iid_to_item(k) == i, f'{what}: item numbers')


def flat(x):
    """results as comparable leaves"""
    if isinstance(x, dict):
        return [v for k in sorted(x, key=str) for v in [('key', str(k))] + flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [('len', len(x))] + [v for y in x for v in flat(y)]
    return [('text', x) if isinstance(x, str) else None if x is None else num(x)]


def equal(ctx, a, b, what):
    fa, fb = flat(a), flat(b)
    ctx.check(len(fa) == len(fb), what)
    ctx.check(And(*[(x is None) == (y is None) and (x is None or (x == y if isinstance(x, tuple) else veq(x, y))) for x, y in zip(fa, fb)]), what)


class World:
    def __init__(self, ctx, backend, kind, test_ids, fit, r, t, ts=False, seq=False):
        self.ctx, self.backend, self.kind = ctx, backend, kind
        U = self.users = [7, 5] if kind == 'int' else ['u', "o'v"]
        I = self.items = [20, 11, 2] if kind == 'int' else ['x, y', 'y', 'z']
        self.bad = (99, 98) if kind == 'int' else ('?', '!')
        rows = [(U[0], I[0], r[0]), (U[0], I[1], r[1]), (U[1], I[1], r[2]), (U[1], I[2], 4.0)]
        test = [(U[1], I[2], t[0]), (U[0], I[2], 3.0), (U[0], self.bad[1], t[1])]
        cols = list(COLS)
        if ts:
            rows, test, cols = [x + (k,) for k, x in enumerate(rows)], [x + (k,) for k, x in enumerate(test)], cols + ['timestamp']
        self.train, self.test = make_ds(ctx, backend, cols, rows), make_ds(ctx, backend, cols, test, ids=test_ids)
        self.mtrain, self.mtest = Model(cols, rows), Model(cols, test)
        if test_ids:
            self.mtest = self.mtest.assign()
        state(ctx, self.train, self.mtrain, backend, 'training data before')
        self.m = fit(self.train)
        self.mtrain = self.mtrain.assign()
        self.point = True
        self.observe('fitting')
        self.before = self.ask()

    def ask(self):
        return answers(self.m, self.users, self.items, self.bad, point=self.point)

    def observe(self, what):
        state(self.ctx, self.train, self.mtrain, self.backend, f'{what} changed the training data')
        state(self.ctx, self.test, self.mtest, self.backend, f'{what} changed the test data')
        m = self.m
        self.ctx.check(And(m.interaction_threshold == THR, m.n_users == 2, m.n_items == 3, m.n_rows == 4), f'{what} changed the parameters of the model')
        self.ctx.check(m.interaction_dataset is self.train and m.fitted is True, f'{what} changed the data of the model')

    def args(self, what, **kw):
        """arguments that must not change"""
        keep = {k: list(v) for k, v in kw.items()}

        def verify():
            for k in kw:
                self.ctx.check(len(kw[k]) == len(keep[k]) and all(a is b or a == b for a, b in zip(kw[k], keep[k])), f'{what} changed its argument {k}')
        return verify

    # activities: each returns what it answered
    def predict(self):
        return [self.m.predict(u, i, skip_errors=True) for u in self.users for i in self.items[:2]]

    def rank(self):
        its = [self.items[2], self.bad[1], self.items[0], self.items[1]]
        v = self.args('rank', item_ids=its)
        out = [self.m.rank(self.users[0], its, novelty=n) for n in (True, False)]
        v()
        return out

    def recommend(self):
        out = [self.m.recommend(u, n=2, novelty=n) for u in self.users for n in (True, False)]
        for o in out:
            keep = list(o)
            o.append('edited')
            o[:] = keep
        return out

    def ev(self, what, f, ms, **kw):
        out = []
        for ds in (self.test, None):
            ks = [2, 1]
            v = self.args(what, metrics=ms, k=ks)
            if what != 'predictive_evaluation':
                kw = dict(kw, k=ks, max_concurrent_threads=1, seed=4)
            out.append(f(self.m, ds, metrics=ms, verbose=False, **kw) if ds is not None else f(self.m, metrics=ms, verbose=False, **kw))
            v()
            self.ctx.check(not self.ctx.__dict__.get('swallowed'), f'{what}: a task failed')
        return out

    def predictive(self):
        from DRecPy.Evaluation.Processes import predictive_evaluation
        from DRecPy.Evaluation.Metrics import MAE, MSE
        return self.ev('predictive_evaluation', predictive_evaluation, [MSE(), MAE()], n_test_predictions=3)

    def ranking(self):
        from DRecPy.Evaluation.Processes import ranking_evaluation
        from DRecPy.Evaluation.Metrics import HitRatio, Recall, NDCG
        return self.ev('ranking_evaluation', ranking_evaluation, [HitRatio(), Recall(), NDCG()], novelty=False, interaction_threshold=THR - 0.5, n_neg_interactions=1)

    def recommendation(self):
        from DRecPy.Evaluation.Processes import recommendation_evaluation
        from DRecPy.Evaluation.Metrics import Precision, AveragePrecision
        return self.ev('recommendation_evaluation', recommendation_evaluation, [Precision(), AveragePrecision()], novelty=False, interaction_threshold=THR - 0.5)

    def pairs(self):
        from DRecPy.Sampler import PointSampler
        return PointSampler(self.train, 1, interaction_threshold=self.thr, seed=0).sample(self.npairs)

    def lists(self):
        from DRecPy.Sampler import ListSampler
        cols = ['user']
        v = self.args('ListSampler', group_columns=cols)
        out = ListSampler(self.train, cols, neg_ratio=0, n_targets=1, min_positive_records=1, max_positive_records=1, sort_column='interaction', seed=0).sample_group_records(1)
        v()
        keep = [([dict(r) for r in p], [dict(r) for r in t], list(n)) for p, t, n in out]
        for p, t, n in out:
            for r in p + t:
                for c in list(r):
                    r[c] = None
            del p[:], t[:]
        return keep

    def gens(self):
        g, h = self.train.null_interaction_pair_generator(seed=0), self.train.select_random_generator(f'interaction >= {THR}', seed=0)
        r = next(h, None)
        keep = None if r is None else dict(r)
        if r is not None:
            r.clear()
        # the generators stay open
        self.open = getattr(self, 'open', []) + [g, h]
        return [keep, list(next(g))]

    def vectors(self):
        return [vec(self.train.select_user_interaction_vec(0)), vec(self.train.select_item_interaction_vec(1))]

    def reads(self):
        q = f'interaction >= {THR}'
        recs = [self.train.select_one(q), self.train.values_list()[0], next(iter(self.train.values()))] + self.test.values_list()
        out = [None if r is None else dict(r) for r in recs]
        for r in recs:
            if r is not None:
                for c in list(r):
                    r[c] = -1
        l = self.train.values_list(columns=['interaction', 'user'], to_list=True)
        out.append([list(x) for x in l])
        for x in l:
            x[0] = -1
        self.train.select(q).unique(['user', 'item'])
        return out

    def another(self):
        import DRecPy.Recommender.Baseline as B
        import DRecPy.Recommender as R
        copy = self.copy
        o = (B.UserKNN if type(self.m).__name__ == 'ItemKNN' else B.ItemKNN)(k=1, m=0, sim_metric='jaccard', verbose=False)
        o.fit(self.train, copy_dataset=copy)
        self.ctx.check((o.interaction_dataset is self.train) == (not copy), 'copy_dataset')
        # a copy of data without numbers: the original stays without
        o.fit(self.test, copy_dataset=True)
        return [o.predict(self.users[0], self.items[2], skip_errors=True)]


ACTS = ['predict', 'rank', 'recommend', 'predictive', 'ranking', 'recommendation', 'pairs', 'lists', 'gens', 'vectors', 'reads', 'another']


def knn(cls, avg, agg='weighted_mean'):
    import DRecPy.Recommender.Baseline as B

    def fit(ds):
        m = getattr(B, cls)(k=2, m=0, sim_metric='jaccard', aggregation=agg, use_averages=avg, verbose=False, interaction_threshold=THR)
        m.fit(ds)
        return m
    return fit


def deep(name, n=3):
    import DRecPy.Recommender as R
    import numpy as np

    def fit(ds):
        kw = dict(CDAE=dict(hidden_factors=2), DMF=dict(user_factors=[2], item_factors=[2]), Caser=dict(L=1, T=1, d=1, n_v=1, n_h=1))[name]
        m = getattr(R, name)(verbose=False, seed=3, interaction_threshold=THR, **kw)
        m.fit(ds, epochs=0)
        if name == 'CDAE':
            W, W_, V, b, b_ = need(m, 'W', 'W_', 'V', 'b', 'b_')
            for var, val in ((W, [[0.1, 0.2], [-0.3, 0.1], [0.2, -0.4]]), (W_, [[0.3, 0.1, -0.2], [0.1, -0.5, 0.4]]), (V, [[0.2, 0.1], [-0.1, 0.3]]), (b, [0.1, -0.1]), (b_, [0.5, -0.2, 0.1])):
                var.assign(val)
        elif name == 'DMF':
            un, inn = need(m, 'user_nn', 'item_nn')
            un.set_weights([np.array([[0.4, -0.2], [0.1, 0.6], [-0.3, 0.5]]), np.array([0.1, 0.05])])
            inn.set_weights([np.array([[0.3, 0.2], [-0.1, 0.7]]), np.array([0.02, -0.03])])
        else:
            m.rank(ds.uid_to_user(0), [ds.iid_to_item(0)], novelty=False)
            w, b = need(m, 'dense_1_W', 'dense_1_b')
            w.set_weights([np.zeros((n, 2), dtype=np.float32)])
            b.set_weights([np.array([0.5, -0.2, 0.1], dtype=np.float32).reshape(n, 1)])
        return m
    return fit


def run(ctx, backend, model, acts, kind='int', test_ids=False, steps=1, sym='rt', skip=()):
    r = [ctx.real(f'r{i}', 1.5, 5) if 'r' in sym and i < 2 else x for i, x in enumerate([3.0, 4.5, 1.5])]
    t = [ctx.real(f't{i}', 1.5, 5) if 't' in sym and i < 1 else x for i, x in enumerate([4.0, 2.0])]
    caser = model[0] == 'Caser'
    fit = deep(*model) if len(model) == 1 else knn(*model)
    w = World(ctx, backend, kind, test_ids, fit, r, t, ts=caser)
    if caser:
        w.point = False
        w.before = w.ask()
    first, chosen = None, [ctx.choice(f'act{k}', [x for x in acts if x not in skip]) for k in range(steps)]
    w.thr = (ctx.choice('thr', [None, THR]) if steps == 1 and len(acts) == 1 else THR) if 'pairs' in chosen else None
    w.npairs = 2 if steps == 1 and 'pairs' == acts[0] else 1
    w.copy = ctx.choice('copy', [True, False]) if 'another' in chosen and steps == 1 else True
    for a in chosen:
        got, e = attempt(getattr(w, a))
        ctx.check(e is None, f'{a} failed: {e!r}'[:160])
        w.observe(a)
        same(ctx, w.before, w.ask(), f'{a} changed the answers of the model')
        if first is None:
            first = (a, got)
    if first[0] != 'another':
        again, e = attempt(getattr(w, first[0]))
        ctx.check(e is None, f'{first[0]} failed: {e!r}'[:160])
        equal(ctx, first[1], again, f'{first[0]} gives another answer the second time')


def scenarios(tier):
    T = tier == 'thorough'
    out = []

    def S(nm, w=1, opts=None, **kw):
        out.append(Scenario(nm, run, kw, weight=w, opts=opts or {}))
    M = {'mem.user': ('mem', ('UserKNN', True)), 'mem.item': ('mem', ('ItemKNN', False)), 'db.item': ('db', ('ItemKNN', True)), 'db.user': ('db', ('UserKNN', False, 'mean'))}
    for nm, (b, mod) in M.items():
        for a in ACTS:
            S(f'{nm}.{a}', 1, backend=b, model=mod, acts=[a], kind='int' if mod[1] else 'str', test_ids=nm[-4:] == 'item', steps=2 if T else 1, sym='rt' if b == 'mem' and (T or a not in ('pairs', 'gens')) else 't',
              opts=dict(max_draws={'pairs': 6, 'gens': 5}.get(a, 10)))
    for nm, (b, mod) in list(M.items())[::2]:
        S(f'{nm}.two', 3, backend=b, model=mod, acts=ACTS, steps=3 if T and b == 'mem' else 2, sym='', opts=dict(max_draws=30, fixed_streams=['seed0', 'seed4', 'seed5']))
    for nm in ('CDAE', 'DMF', 'Caser'):
        S(f'{nm}', 2, backend='mem', model=(nm,), acts=ACTS, steps=1, sym='', opts=dict(max_draws=30, fixed_streams=['seed0', 'seed4', 'seed5']), skip=('predict', 'predictive') if nm == 'Caser' else ())
    return out
