"""C19: neighbourhood models predict from the k most similar neighbours."""
from symx.kit import *
from symx import core

BUDGET = {'quick': 240, 'thorough': 700}
PATH_LIMIT = 40
REAL_TF = True
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': 'user- and item-based models on 3 entities x 3 targets with every rating pattern of the neighbours (two patterns of the predicted entity), and 4 entities x 2 targets; arbitrary similarities in [-1, 1] (absent ones '
             'included) and ratings (zero and negative ones included); k 1-3, minimum support 0-2, shrinkage absent, 0, 1 and 10, both aggregations, with and without averages; every built-in measure and the default parameters on '
             'chosen ratings; fitting twice; both backends',
    'thorough': 'every rating pattern of the predicted entity as well, 4 entities x 3 targets',
}
OUTSIDE = 'repeated user-item pairs; which of two equally similar neighbours at the k-th place is used'


def raw(kind, n):
    return [[30, 10, 20, 40], ['b', 'z', 'a', 'c']][kind == 'str'][:n]


class World:
    """ratings of `targets` by `sides` (users x items for the user-based model, items x users for the other)"""

    def __init__(self, ctx, item_based, backend, entries, kind='int', extra=()):
        self.ctx, self.item_based, self.r = ctx, item_based, dict(entries)
        rows = [((t, s) if item_based else (s, t)) + (v,) for (s, t), v in entries]
        self.ds = make_ds(ctx, backend, COLS, rows)

    def of(self, s):
        return {t for (x, t) in self.r if x == s}

    def sides(self):
        out = []
        for s, _ in self.r:
            if s not in out:
                out.append(s)
        return out

    def idx(self, s):
        return self.ds.item_to_iid(s) if self.item_based else self.ds.user_to_uid(s)

    def tidx(self, t):
        return self.ds.user_to_uid(t) if self.item_based else self.ds.item_to_iid(t)

    def model(self, **kw):
        import DRecPy.Recommender.Baseline as B
        return (B.ItemKNN if self.item_based else B.UserKNN)(verbose=False, **kw)

    def predict(self, m, s, t, **kw):
        return m.predict(*((t, s) if self.item_based else (s, t)), **kw)

    def metric(self, S):
        """a similarity function returning the scripted values, after comparing the matrix it is given"""
        def fn(matrix):
            n, nt = len(self.sides()), len({t for _, t in self.r})
            self.ctx.check(matrix.shape == (n, nt), 'shape of the matrix the similarities are computed from')
            M = matrix.toarray()
            for s in self.sides():
                for t in {t for _, t in self.r}:
                    v = M[self.idx(s), self.tidx(t)]
                    w = self.r.get((s, t), 0)
                    self.ctx.check(veq(v, w), 'matrix the similarities are computed from')
            rr, cc, vv = [], [], []
            for a in self.sides():
                for b in self.sides():
                    v = 1.0 if a == b else S.get((a, b), S.get((b, a)))
                    if v is not None:
                        rr.append(self.idx(a)), cc.append(self.idx(b)), vv.append(v)
            return sparse().csr_matrix((vv, (rr, cc)), shape=(n, n))
        return fn

    def want(self, S, s, t, k, m, shrink, agg, avg, ties=False):
        """predicted value, None, or 'prune' when a tie decides"""
        near = []
        for o in self.sides():
            if o == s:
                continue
            v = S.get((s, o), S.get((o, s)))
            co = len(self.of(s) & self.of(o))
            if v is None or (m > 0 and co < m):
                continue
            if shrink is not None:
                v = v * (co / (co + shrink + 1e-6))
            if not bool(v > 0):
                continue
            near.append((v, o))
        if len(near) > k:
            out = []
            for v, o in near:       # selection by repeated maximum
                p = 0
                while p < len(out) and bool(out[p][0] > v):
                    p += 1
                if p < len(out) and bool(out[p][0] == v):
                    self.ctx.prune('tie')
                out.insert(p, (v, o))
            near = out[:k]
        used = [(v, self.r[(o, t)]) for v, o in near if (o, t) in self.r]
        if not used:
            if not avg:
                return None, used
            rs = [x for (_, y), x in self.r.items() if y == t]
            return Sum(rs) / (1.0 * len(rs)), used
        if agg == 'mean':
            return Sum(x for _, x in used) / (1.0 * len(used)), used
        return Sum(v * x for v, x in used) / Sum(v for v, _ in used), used


def verify(ctx, w, mod, S, s, t, rng=True, tol=1e-6, **par):
    v, used = w.want(S, s, t, **par)
    got, e = attempt(w.predict, mod, s, t)
    if v is None:
        ctx.check(e is not None, 'nothing can be predicted without usable neighbours')
        ctx.check(w.predict(mod, s, t, skip_errors=True) is None, 'nothing is predicted without usable neighbours')
        return
    ctx.check(e is None, f'prediction failed: {e!r}')
    if e is not None:
        return
    ctx.check_close(got, v, 'predicted value', tol=tol)
    if rng and used:
        ctx.check(And(Or(*[got >= x - 1e-9 for _, x in used]), Or(*[got <= x + 1e-9 for _, x in used])), 'prediction within the range of the averaged interactions')


def run(ctx, item_based, backend='mem', n=3, nt=3, mine=None, modes=None, kind='int', absent=True, full=False, lo=1.5, hi=5):
    sides, targets = raw(kind, n), raw('int' if kind == 'str' else 'str', nt) if kind == 'mixed' else raw(kind, nt)
    A = sides[1]
    mode = modes[ctx.choice('mode', list(range(len(modes))))] if len(modes) > 1 else modes[0]
    pat = {}
    entries = []
    for j, s in enumerate(sides):
        if s == A:
            p = ctx.choice('mine', mine)
        elif full:
            p = 2 ** nt - 1
        else:
            p = ctx.choice(f'p{j}', list(range(1, 2 ** nt)))
        pat[s] = p
        for b, t in enumerate(targets):
            if p >> b & 1:
                entries.append(((s, t), None))
    # every target occurs
    have = {t for (_, t), _ in entries}
    if A not in pat or len(have) < nt:
        entries += [((sides[0], t), None) for t in targets if t not in have]
    entries = [(st, ctx.real(f'r{sides.index(st[0])}{targets.index(st[1])}', lo, hi)) for st, _ in entries]
    w = World(ctx, item_based, backend, entries, kind)
    S = {}
    for j, s in enumerate(sides):
        if s != A:
            if absent and j == n - 1 and ctx.bool('absent'):
                continue
            S[(A, s)] = ctx.real(f's{j}', -1, 1)
    for i in range(n):
        for j in range(i):
            if A not in (sides[i], sides[j]):
                S[(sides[i], sides[j])] = 0.5
    k, m, shrink, agg, avg = mode
    mod = w.model(k=k, m=m, shrinkage=shrink, aggregation=agg, use_averages=avg, sim_metric='cosine')
    if not hasattr(mod, 'sim_metric_fn'):
        core.raise_unsupported('attribute sim_metric_fn')
    mod.sim_metric_fn = w.metric(S)
    mod.fit(w.ds)
    # by symmetry of the patterns one rated and one unrated target suffice
    ts = [next((b for b in range(nt) if (pat[A] >> b & 1) == x), None) for x in (0, 1)]
    t = targets[ctx.choice('t', list(range(nt)) if full else [x for x in ts if x is not None])]
    verify(ctx, w, mod, S, A, t, k=k, m=m, shrink=shrink, agg=agg, avg=avg, rng=agg == 'mean' or n == 3)


VALS = {(0, 0): 3.0, (0, 1): 5.0, (0, 2): 1.5, (1, 0): 4.0, (1, 1): 2.5, (1, 2): 3.5, (2, 0): 2.0, (2, 1): 4.5, (2, 2): 5.0}


def builtin(ctx, item_based, metric):
    import DRecPy.Recommender.Baseline.similarity as sim
    fn = {'adjusted_cosine': 'adjusted_cosine_sim', 'cosine': 'cosine_sim', 'cosine_cf': 'cosine_sim_cf', 'jaccard': 'jaccard_sim', 'msd': 'msd', 'pearson': 'pearson_corr'}[metric]
    sides, targets = [30, 10, 20], [7, 5, 6]
    pats = [ctx.choice(f'p{j}', [1, 3, 6, 7] if j else [7, 5]) for j in range(3)]
    entries = [((s, t), VALS[(i, j)]) for i, s in enumerate(sides) for j, t in enumerate(targets) if pats[i] >> j & 1]
    w = World(ctx, item_based, 'mem', entries)
    w.ds.assign_internal_ids()
    sp = sparse()
    M = getattr(sim, fn)(sp.csr_matrix(([v for _, v in entries], ([w.idx(s) for (s, _), _ in entries], [w.tidx(t) for (_, t), _ in entries])))).toarray()
    S = {}
    for a in sides:
        for b in sides:
            # a measure may leave out trailing rows without similarities
            if a != b and max(w.idx(a), w.idx(b)) < M.shape[0] and min(w.idx(a), w.idx(b)) < M.shape[1]:
                S[(a, b)] = M[max(w.idx(a), w.idx(b)), min(w.idx(a), w.idx(b))]
    k = ctx.choice('k', [1, 2])
    mod = w.model(k=k, m=0, shrinkage=1, aggregation='weighted_mean', sim_metric=metric)
    mod.fit(w.ds)
    for s in sides:
        for t in targets:
            verify(ctx, w, mod, S, s, t, k=k, m=0, shrink=1, agg='weighted_mean', avg=False)


def defaults(ctx, item_based):
    import DRecPy.Recommender.Baseline.similarity as sim
    sides, targets = [1, 2, 3, 4], [10, 11, 12, 13, 14, 15]
    drop = ctx.choice('drop', list(range(7)))
    drop2 = ctx.choice('drop2', list(range(7)))
    val = lambda i, j: 1.5 + (i * 7 + j * 3 + i * j) % 4
    entries = [((s, t), val(i, j)) for i, s in enumerate(sides) for j, t in enumerate(targets) if not (i == 1 and j == drop) and not (i == 2 and j in (drop, drop2))]
    w = World(ctx, item_based, 'mem', entries)
    w.ds.assign_internal_ids()
    M = sim.adjusted_cosine_sim(sparse().csr_matrix(([v for _, v in entries], ([w.idx(s) for (s, _), _ in entries], [w.tidx(t) for (_, t), _ in entries])))).toarray()
    S = {(a, b): M[max(w.idx(a), w.idx(b)), min(w.idx(a), w.idx(b))] for a in sides for b in sides if a != b}
    mod = w.model()
    mod.fit(w.ds)
    for s in sides:
        for t in targets:
            verify(ctx, w, mod, S, s, t, k=20, m=5, shrink=100, agg='weighted_mean', avg=False)


def refit(ctx, item_based):
    """the second fit forgets the first one"""
    sides, targets = [1, 2, 3], [10, 11]
    par = dict(k=1, m=0, shrinkage=None, aggregation='mean', use_averages=False, sim_metric='cosine')
    w1 = World(ctx, item_based, 'mem', [((s, t), 3.0) for s in sides for t in targets])
    S1 = {(1, 2): 0.9, (1, 3): 0.2, (2, 3): 0.3}
    pat = [ctx.choice(f'p{j}', [1, 2, 3]) for j in range(3)]
    entries = [((s, t), ctx.real(f'r{s}.{t}', 1.5, 5)) for s, p in zip(sides, pat) for b, t in enumerate(targets) if p >> b & 1]
    w2 = World(ctx, item_based, 'mem', entries)
    S2 = {}
    if ctx.bool('s12'):
        S2[(1, 2)] = ctx.real('v12', -1, 1)
    if ctx.bool('s13'):
        S2[(1, 3)] = ctx.real('v13', -1, 1)
    ctx.assume(len({t for _, t in w2.r}) == 2)
    mod = w1.model(**par)
    mod.sim_metric_fn = w1.metric(S1)
    mod.fit(w1.ds)
    mod.sim_metric_fn = w2.metric(S2)
    mod.fit(w2.ds)
    for t in targets:
        verify(ctx, w2, mod, S2, 1, t, k=1, m=0, shrink=None, agg='mean', avg=False)


def names(ctx):
    import DRecPy.Recommender.Baseline as B
    c = ctx.choice('cls', ['UserKNN', 'ItemKNN'])
    kw = ctx.choice('kw', [dict(sim_metric='cos'), dict(aggregation='median'), dict(sim_metric=None), dict(sim_metric='msd', aggregation='mean')])
    _, e = attempt(lambda: getattr(B, c)(verbose=False, **kw))
    ctx.check((e is None) == (kw.get('sim_metric') == 'msd'), 'unknown measures and aggregations are rejected')


def aggregation(ctx, n):
    from DRecPy.Recommender.Baseline.aggregation import mean, weighted_mean
    r = [ctx.real(f'r{i}', -5, 5) for i in range(n)]
    s = [ctx.real(f's{i}', 0, 1) for i in range(n)]
    a, b = mean(r, s), weighted_mean(r, s)
    if not n:
        ctx.check(a is None and b is None, 'aggregation of nothing')
        return
    ctx.check_close(a, Sum(r) / n, 'mean')
    if bool(Sum(s) > 0):
        t = Sum(s)
        ctx.check(b is not None, 'weighted mean')
        ctx.check_close(b, Sum(x * y for x, y in zip(s, r)) / t, 'weighted mean')
    else:
        ctx.check(b is None, 'weighted mean without weights')


def scenarios(tier):
    T = tier == 'thorough'
    S = lambda nm, fn=run, w=2, **kw: Scenario(nm, fn, kw, weight=w)
    out = [S('names', names, 1), S('agg.0', aggregation, 1, n=0), S('agg.2', aggregation, 1, n=2), S('agg.3', aggregation, 1, n=3)]
    modes = [(2, 0, None, 'mean', True), (1, 1, 10, 'mean', False), (2, 2, 0, 'weighted_mean', True), (1, 0, 1, 'weighted_mean', True)]
    mine = list(range(1, 8))
    for ib in (False, True):
        c = 'item' if ib else 'user'
        for q, md in enumerate(modes):
            out.append(S(f'{c}.{q}', item_based=ib, modes=[md], mine=mine if T else [[7], [6], [6], [7]][q]))
        out.append(S(f'{c}.wide', item_based=ib, n=4, nt=2, full=True, mine=[1, 3], modes=[(1, 0, None, 'mean', False), (2, 2, 1, 'mean', False), (3, 1, None, 'weighted_mean', True)]))
        out.append(S(f'{c}.db', item_based=ib, backend='db', n=3, nt=2, mine=[1, 3], modes=modes[:3]))
        out.append(S(f'{c}.zero', item_based=ib, n=3, nt=2, mine=[1, 3], modes=[modes[0], modes[3]], lo=-2, hi=2))
        out.append(S(f'{c}.str', item_based=ib, n=3, nt=2, mine=[2, 3], modes=modes[1:3], kind='str'))
        if T:
            out.append(S(f'{c}.wide3', item_based=ib, n=4, nt=3, mine=[6, 7], modes=[(2, 1, 1, 'mean', True)]))
        out.append(S(f'{c}.refit', refit, item_based=ib))
        out.append(S(f'{c}.defaults', defaults, item_based=ib))
        for me in ('adjusted_cosine', 'cosine', 'cosine_cf', 'jaccard', 'msd', 'pearson'):
            out.append(S(f'{c}.{me}', builtin, 1, item_based=ib, metric=me))
    return out
