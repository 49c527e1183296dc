"""C20: similarity measures equal their definitions."""
from symx.kit import *
from symx import core

BUDGET = {'quick': 240, 'thorough': 700}
PATH_LIMIT = 40
BOUNDS = {
    'quick': 'matrices of 2x2, 2x3 and 3x2 (3x3 for Jaccard and the cosines; 2x4 with one complete row for Pearson, Jaccard, the mean squared difference and the co-rated cosine) with every pattern of recorded entries (empty rows and columns included) and arbitrary positive or negative '
             'recorded values in [-5, 5]; passed as csr, lil or nested lists; the memory fallback of the counting measure',
    'thorough': '3x3 and 2x4 for every measure',
}
OUTSIDE = 'recorded entries whose value is 0 (indistinguishable from absent ones in some measures); rounding errors of floating point; the mean squared difference is normalised by ' \
          'the range of the matrix including absent entries as 0, as implemented'


class Data:
    def __init__(self, ctx, R, C, neg, full=0):
        self.ctx, self.R, self.C = ctx, R, C
        self.e = [dict() for _ in range(R)]
        for i in range(R):
            for j in range(C):
                if (i >= R - full) or (full and j < C - 2) or ctx.bool(f'p{i}{j}'):
                    v = ctx.real(f'v{i}{j}', -5 if neg else 0.5, 5)
                    if neg:
                        ctx.assume(v != 0)
                    self.e[i][j] = v

    def matrix(self, form):
        sp = sparse()
        vals = [v for r in self.e for v in r.values()]
        rr = [i for i, r in enumerate(self.e) for _ in r]
        cc = [j for r in self.e for j in r]
        if form == 'list':
            return [[self.e[i].get(j, 0) for j in range(self.C)] for i in range(self.R)]
        m = sp.csr_matrix((vals, (rr, cc)), shape=(self.R, self.C))
        return m if form == 'csr' else sp.lil_matrix(m)

    def common(self, i, j):
        return [c for c in self.e[i] if c in self.e[j]]


def normalised(rows):
    """rows scaled to unit length (rows without length as they are)"""
    out = []
    for r in rows:
        s = core.sym_sqrt(Sum(v * v for v in r.values())) if r else 0
        out.append({k: v / s for k, v in r.items()} if r and bool(s != 0) else dict(r))
    return out


def centred(rows):
    out = []
    for r in rows:
        m = Sum(r.values()) / len(r) if r else 0
        out.append({k: v - m for k, v in r.items()})
    return out


def ratio(a, b):
    """cosine of the angle between two vectors, 0 when one has no length"""
    num, da, db = Sum(x * y for x, y in zip(a, b)), Sum(x * x for x in a), Sum(y * y for y in b)
    if bool(da == 0) or bool(db == 0):
        return 0
    return num / (core.sym_sqrt(da) * core.sym_sqrt(db))


def expected(d, kind):
    """matrix of the values of the definition"""
    if kind in ('cosine', 'adjusted'):
        rows = normalised(d.e if kind == 'cosine' else centred(d.e))
    if kind == 'msd':
        vals = [v for r in d.e for v in r.values()]
        if len(vals) < d.R * d.C:
            vals = vals + [0]
        lo = hi = vals[0]
        for v in vals[1:]:
            if bool(v > hi):
                hi = v
        for v in vals[1:]:
            if bool(v < lo):
                lo = v
        rng = hi - lo
        if bool(rng == 0):
            rng = 1
    out = [[0] * d.R for _ in range(d.R)]
    for i in range(d.R):
        for j in range(i, d.R):
            c = d.common(i, j)
            if not c:
                continue
            x, y = [d.e[i][k] for k in c], [d.e[j][k] for k in c]
            if kind in ('cosine', 'adjusted'):
                v = Sum(rows[i][k] * rows[j][k] for k in c)
            elif kind == 'cf':
                v = ratio(x, y)
            elif kind == 'pearson':
                mx, my = Sum(x) / len(x), Sum(y) / len(y)
                v = ratio([a - mx for a in x], [b - my for b in y])
            elif kind == 'jaccard':
                v = len(c) / len(set(d.e[i]) | set(d.e[j]))
            else:
                v = 1 - Sum(((a - b) / rng) * ((a - b) / rng) for a, b in zip(x, y)) / len(x)
            out[i][j] = out[j][i] = v
    return out


FN = {'cosine': 'cosine_sim', 'cf': 'cosine_sim_cf', 'adjusted': 'adjusted_cosine_sim', 'jaccard': 'jaccard_sim', 'msd': 'msd', 'pearson': 'pearson_corr'}


def run(ctx, kind, R, C, neg=False, fault=False, bound=True, forms=False, full=0):
    from DRecPy.Recommender.Baseline import similarity
    d = Data(ctx, R, C, neg, full)
    if not any(d.e):
        ctx.prune('empty matrix')
    m = d.matrix(ctx.choice('form', ['lil', 'list'] if forms else ['csr']))
    fn = getattr(similarity, FN[kind])
    if fault:
        csr_matrix = sparse().csr_matrix
        had = 'dot' in vars(csr_matrix)
        orig = csr_matrix.dot

        def boom(*a, **k):
            raise MemoryError()
        csr_matrix.dot = boom
        try:
            res = fn(m)
        finally:
            if had:
                csr_matrix.dot = orig
            else:
                del csr_matrix.dot
    else:
        res = fn(m)
    a = res.toarray()
    n = len(a)
    ctx.check(n <= R and all(len(r) == n for r in a), 'shape of the result')
    at = lambda i, j: a[i][j] if i < n and j < n else 0
    want = expected(d, kind)
    for i in range(R):
        for j in range(R):
            s = at(i, j)
            if i < j:
                ctx.check(s == at(j, i) if is_sym(s) else close(s, at(j, i), 1e-9), 'the similarity is not symmetric')
            if not d.common(i, j):
                ctx.check(s == 0, 'similarity of rows without common entries')
                continue
            w = want[i][j]
            if not is_sym(w) and not is_sym(s) and kind in ('adjusted', 'pearson') and not close(s, w, 1e-6):
                c = d.common(i, j)
                for r in ([d.e[i], d.e[j]] if kind == 'adjusted' else [{k: d.e[x][k] for k in c} for x in (i, j)]):
                    if max(r.values()) - min(r.values()) < 1e-6:
                        ctx.prune('constant up to rounding')
            ctx.check_close(s, w, 'value of the similarity')
            if bound and i < j and kind != 'jaccard':
                ctx.check(And(s <= 1 + 1e-6, s >= -1 - 1e-6), 'the similarity is out of its range')


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    for k in FN:
        out.append(Scenario(f'{k}.2x3', run, dict(kind=k, R=2, C=3, bound=False), weight=2))
        out.append(Scenario(f'{k}.3x2', run, dict(kind=k, R=3, C=2, bound=False), weight=2))
        out.append(Scenario(f'{k}.2x2', run, dict(kind=k, R=2, C=2, neg=True)))
        out.append(Scenario(f'{k}.forms', run, dict(kind=k, R=2, C=2, forms=True, bound=False)))
        if T or k in ('jaccard', 'cf', 'cosine'):
            out.append(Scenario(f'{k}.3x3', run, dict(kind=k, R=3, C=3, bound=False), weight=4))
        if T or k in ('pearson', 'msd', 'jaccard', 'cf'):
            out.append(Scenario(f'{k}.2x4', run, dict(kind=k, R=2, C=4, bound=False, full=0 if T else 1), weight=3))
    out.append(Scenario('jaccard.fault', run, dict(kind='jaccard', R=3, C=3, fault=True)))
    return out
