"""shared by C16 and C17: scripted model, recording metrics, checks of the reported averages"""
import threading

from symx.kit import *

COLS = ['user', 'item', 'interaction']


def metric_classes():
    from DRecPy.Evaluation.Metrics import RankingMetricABC

    class Full(RankingMetricABC):
        """receives everything; value and failures are given"""

        def __init__(self, rec, name):
            super().__init__()
            self.rec, self.name = rec, name

        def __call__(self, recommendations, k=None, relevant_recommendations=None, relevant_recommendation=None, relevancies=None):
            return self.rec(self.name, recommendations, k, relevant_recommendations, relevant_recommendation, relevancies)

    class Few(RankingMetricABC):
        """receives only some of the parameters"""

        def __init__(self, rec, name):
            super().__init__()
            self.rec, self.name = rec, name

        def __call__(self, recommendations, relevant_recommendations, k=None):
            return self.rec(self.name, recommendations, k, relevant_recommendations, 'absent', 'absent')

    return Full, Few


class Rec:
    """records the calls of the metrics"""

    def __init__(self, ctx, fails):
        self.ctx, self.fails, self.calls, self.model = ctx, fails, [], None

    def __call__(self, name, recs, k, rel, best, relevances):
        c = dict(name=name, recs=list(recs), k=k, rel=list(rel), best=best, relevances=dict(relevances) if relevances != 'absent' else None, user=self.model.user)
        if self.fails and name == 'F' and self.ctx.bool(f'fail.{self.model.user}.{k}'):
            c['value'] = None
            self.calls.append(c)
            raise ValueError('metric failed')
        c['value'] = self.ctx.real(f'm.{name}.{self.model.user}.{k}', -1, 1)
        self.calls.append(c)
        return c['value']


class FakeModel:
    def __init__(self, ctx, thr, n_items, ds, answer):
        self.ctx, self.interaction_threshold, self.n_items, self.interaction_dataset, self.answer = ctx, thr, n_items, ds, answer
        self._local, self.asked = threading.local(), {}

    # the user a worker is busy with: the metrics called next on the same thread belong to it
    @property
    def user(self):
        return getattr(self._local, 'user', None)

    @user.setter
    def user(self, u):
        self._local.user = u

    def rank(self, user_id, item_ids, novelty=True, skip_invalid_items=True, **kw):
        self.user = user_id
        self.ctx.check(user_id not in self.asked, 'a user was evaluated twice')
        self.ctx.check(not kw and skip_invalid_items is True, 'ranking parameters')
        out = self.answer(user_id, list(item_ids))
        self.asked[user_id] = (list(item_ids), novelty, None if out is None else [i for _, i in out])
        if out is None:
            raise Exception('cannot rank')
        return out

    def recommend(self, user_id, n=None, novelty=True, interaction_threshold=None, **kw):
        self.user = user_id
        self.ctx.check(user_id not in self.asked, 'a user was evaluated twice')
        out = self.answer(user_id, n)
        self.asked[user_id] = ((n, interaction_threshold), novelty, None if out is None else [i for _, i in out])
        if out is None:
            raise Exception('cannot recommend')
        return out


def averages(ctx, res, rec, names, ks):
    ctx.check(set(res) == {f'{n}@{k}' for n in names for k in ks}, 'names of the results')
    for n in names:
        for k in ks:
            vals = [c['value'] for c in rec.calls if c['name'] == n and c['k'] == k and c['value'] is not None]
            if not vals:
                ctx.check(res[f'{n}@{k}'] == 0, 'a metric that was never computed is 0')
                continue
            d = res[f'{n}@{k}'] - Sum(vals) / (1.0 * len(vals))
            ctx.check(And(d <= 0.0000501, d >= -0.0000501), 'average of a metric over the users')


def calls_ok(ctx, rec, model, names, ks, truth):
    """every asked user was scored once by each metric at each cut-off, with the right arguments"""
    for u, (asked, _, recs) in model.asked.items():
        mine = [c for c in rec.calls if c['user'] == u]
        if recs is None:
            ctx.check(not mine, 'a user that could not be ranked was scored')
            continue
        ctx.check(sorted((c['name'], c['k']) for c in mine) == sorted((n, k) for n in names for k in ks), 'metrics computed for a user')
        for c in mine:
            ctx.check(c['recs'] == recs, 'recommendations passed to a metric')
            truth(u, c)
    ctx.check({c['user'] for c in rec.calls} <= set(model.asked), 'a user was scored without being asked for')
