"""C13: set-based ranking metrics equal their definitions."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
OPTS = {'int_hash': 'eq'}
BOUNDS = {
    'quick': 'lists of 0..4 arbitrary integer ids (duplicates allowed) or strings, 1..3 arbitrary distinct relevant ids, no cut-off or k = 1..5, any beta in (0, 4]',
    'thorough': 'lists of up to 5 ids, up to 4 relevant ids',
}
OUTSIDE = 'longer lists; an empty relevant set, and the precision of an empty list (undefined: the metrics raise); ids mixing integers and strings'


def body(ctx, recs, rel, k, beta):
    from DRecPy.Evaluation.Metrics import HitRatio, ReciprocalRank, Recall, Precision, FScore, AveragePrecision
    a, b = list(recs), list(rel)
    top = a if k is None else a[:k]
    n = len(top)
    hit = lambda upto: Sum([If(Or(*[r == g for r in top[:upto]]), 1, 0) for g in b]) if upto else 0
    kw = {} if k is None else {'k': k}
    ratio = lambda x, y: x * 1.0 / y
    recall = ratio(hit(n), len(b))
    ctx.check_close(HitRatio()(recs, relevant_recommendations=rel, **kw), recall, 'HitRatio')
    ctx.check_close(Recall()(recs, relevant_recommendations=rel, **kw), recall, 'Recall')
    if n:
        prec = ratio(hit(n), n)
        ctx.check_close(Precision()(recs, relevant_recommendations=rel, **kw), prec, 'Precision')
        f = FScore(beta=beta)(recs, relevant_recommendations=rel, **kw)
        if bool(hit(n) == 0):
            ctx.check(f == 0, 'FScore without hits')
        else:
            # f = (1+b2) p r / (b2 p + r), multiplied out
            b2 = beta * beta
            ctx.check_close(f * (b2 * prec + recall), (1 + b2) * prec * recall, 'FScore')
        ctx.check(And(f >= 0, f <= 1.0000001), 'FScore range')
    g = b[0]
    rr = 0
    for i in reversed(range(n)):
        rr = If(top[i] == g, 1.0 / (i + 1), rr)
    ctx.check_close(ReciprocalRank()(recs, relevant_recommendation=g, **kw), rr, 'ReciprocalRank')
    s = 0
    for i in range(n):
        first = And(Or(*[top[i] == x for x in b]), Not(Or(*[top[i] == top[j] for j in range(i)])))
        s = s + If(first, ratio(hit(i + 1), i + 1), 0.0)
    ap = AveragePrecision()(recs, relevant_recommendations=rel, **kw)
    want = ratio(s, len(b) if k is None else min(len(b), k))
    ctx.check_close(ap, want, 'AveragePrecision')
    ctx.check(And(ap >= 0, ap <= 1.0000001), 'AveragePrecision range')
    for M, arg in ((HitRatio, 'relevant_recommendations'), (Recall, 'relevant_recommendations'), (Precision, 'relevant_recommendations'), (FScore, 'relevant_recommendations'),
                   (AveragePrecision, 'relevant_recommendations'), (ReciprocalRank, 'relevant_recommendation')):
        ctx.check(M()(recs, **kw) == 0, 'no relevant items given')
    ctx.check(len(recs) == len(a) and And(*[x == y for x, y in zip(recs, a)]), 'recommendations were modified')
    ctx.check(len(rel) == len(b) and And(*[x == y for x, y in zip(rel, b)]), 'relevant items were modified')


def ints(ctx, n, m, k):
    recs = [ctx.int(f'r{i}', -10 ** 6, 10 ** 6) for i in range(n)]
    rel = [ctx.int(f'g{i}', -10 ** 6, 10 ** 6) for i in range(m)]
    ctx.assume(And(*[rel[i] != rel[j] for i in range(m) for j in range(i)]))
    body(ctx, recs, rel, k, ctx.choice('beta', [1, 2, 0.5]))


def strs(ctx, n, m):
    recs = [ctx.choice(f'r{i}', ['1', 'a', 'b']) for i in range(n)]
    rel = ['a', '01', 'b'][:m]
    k = ctx.choice('k', [None, 1, 2, 4])
    beta = ctx.real('beta', 0, 4)
    ctx.assume(beta > 0)
    body(ctx, recs, rel, k, beta)


def scenarios(tier):
    T = tier == 'thorough'
    N, M = (5, 4) if T else (4, 3)
    out = []
    for n in range(N + 1):
        for m in range(1, M + 1):
            for k in [None] + list(range(1, N + 2)):
                if k is None or k <= n + 1:
                    out.append(Scenario(f'ints.{n}.{m}.{k}', ints, dict(n=n, m=m, k=k), weight=1 + n))
    for n in range(4 if T else 3):
        out.append(Scenario(f'strs.{n}', strs, dict(n=n, m=2)))
    return out
