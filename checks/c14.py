"""C14: DCG and NDCG equal their definitions."""
import math
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
BOUNDS = {
    'quick': 'up to 4 items with arbitrary relevances in [0, 8] ([-8, 8] for the plain definition), every ordered choice of recommended items (up to renaming for 4 items), no cut-off or k = 1..5, '
             'plain and exponential gains',
    'thorough': '5 items',
}
OUTSIDE = 'more items; relevances that are all zero (the ideal gain is 0 and the metric raises); recommended items without a relevance'
ASSUMPTIONS = ['2**x is an uninterpreted strictly increasing function with exact values at the integers -2..8']


def gain(rel, strong):
    return (2 ** rel - 1) if strong else rel


def dcg(rels, strong):
    s = 0
    for i, r in enumerate(rels):
        s = s + gain(r, strong) / math.log2(2 + i)
    return s


def pick(ctx, n, m, items):
    if n > 3:    # relevances are arbitrary, so other orderings only differ in the dict order
        return list(items)[:m] if ctx.bool('forward') else list(reversed(items))[:m]
    left, out = list(items), []
    for i in range(m):
        j = ctx.cint(f'p{i}', 0, len(left) - 1)
        out.append(left.pop(j))
    return out


def run(ctx, n, m, strong, neg=False, kind='int'):
    from DRecPy.Evaluation.Metrics import DCG, NDCG
    items = list(range(7, 7 + n)) if kind == 'int' else [f'i{j}' for j in range(n)]
    rel = {it: ctx.real(f'rel{j}', -8 if neg else 0, 8) for j, it in enumerate(items)}
    recs = pick(ctx, n, m, items)
    k = ctx.choice('k', [None] + list(range(1, n + 2)))
    kw = {} if k is None else {'k': k}
    top = recs if k is None else recs[:k]
    before, rb = list(recs), dict(rel)
    d = DCG(strong_relevancy=strong)(recs, relevancies=rel, **kw)
    mine = dcg([rel[r] for r in top], strong)
    ctx.check_close(d, mine, 'DCG')
    ctx.check(DCG(strong_relevancy=strong)(recs, **kw) == 0, 'DCG without relevances')
    ctx.check(NDCG(strong_relevancy=strong)(recs, **kw) == 0, 'NDCG without relevances')
    if neg:
        return
    ctx.assume(Or(*[v > 0.01 for v in rel.values()]))
    nd = NDCG(strong_relevancy=strong)(recs, relevancies=rel, **kw)
    order = []
    for v in rel.values():       # independent insertion sort, best first
        j = 0
        while j < len(order) and bool(order[j] >= v):
            j += 1
        order.insert(j, v)
    best = order if k is None else order[:k]
    ideal = dcg(best, strong)
    ctx.check_close(nd, mine / ideal, 'NDCG')
    # what follows is stated on numerator and denominator (linear); nd is their quotient, as just checked
    ctx.check(And(mine >= 0, mine <= ideal + 1e-9), 'NDCG range')
    ours = [rel[r] for r in top]
    if len(ours) >= len(best):
        same = And(*[a == b for a, b in zip(ours, best)])
        ctx.check(Implies(same, And(mine > ideal - 1e-9, mine < ideal + 1e-9)), 'the ideal ordering must reach 1')
    far = Or(*[(a < b - 0.1) for a, b in zip(ours, best)], len(ours) < len(best) and best[len(ours)] > 0.1) if best else False
    if bool(far):
        ctx.check(mine < ideal, 'a worse ordering must be below 1')
    ctx.check(recs == before, 'recommendations were modified')
    ctx.check(list(rel) == list(rb) and And(*[rel[x] == rb[x] for x in rb]), 'relevances were modified')


def swap(ctx, n, strong):
    from DRecPy.Evaluation.Metrics import DCG
    items = list(range(n))
    rel = {it: ctx.real(f'rel{it}', 0, 8) for it in items}
    ctx.assume(Or(*[v > 0.01 for v in rel.values()]))
    i = ctx.cint('i', 0, n - 2)
    j = ctx.cint('j', i + 1, n - 1)
    k = ctx.choice('k', [None] + list(range(1, n + 1)))
    kw = {} if k is None else {'k': k}
    ctx.assume(rel[j] >= rel[i])
    up = list(items)
    up[i], up[j] = up[j], up[i]
    a, b = DCG(strong_relevancy=strong)(items, relevancies=rel, **kw), DCG(strong_relevancy=strong)(up, relevancies=rel, **kw)
    ctx.check(b >= a - 1e-9, 'the gain decreased although a better item moved up')


def scenarios(tier):
    N = 5 if tier == 'thorough' else 4
    out = []
    for strong in (False, True):
        s = 'exp' if strong else 'lin'
        for n in range(1, N + 1):
            for m in sorted({0, 1, n - 1, n}):
                out.append(Scenario(f'{s}.{n}.{m}', run, dict(n=n, m=m, strong=strong), weight=n))
        out.append(Scenario(f'{s}.neg', run, dict(n=3, m=3, strong=strong, neg=True)))
        out.append(Scenario(f'{s}.str', run, dict(n=2, m=2, strong=strong, kind='str')))
        out.append(Scenario(f'{s}.swap', swap, dict(n=N - 1, strong=strong)))
    return out
