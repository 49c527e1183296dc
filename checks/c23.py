"""C23: early stopping picks the epoch with the best validation value."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
BOUNDS = {
    'quick': 'histories of 1..5 arbitrary results at arbitrary epochs, one or two recorded metrics, with or without cut-off suffix in the recorded and in the required '
             'name; malformed results: not a dict, empty, not lists, missing metric, empty lists',
    'thorough': '7 results',
}
OUTSIDE = 'longer histories; several recorded cut-offs of the metric when it is required without one; results that are not numbers'


def run(ctx, n):
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    vals = [ctx.real(f'v{i}', -10, 10) for i in range(n)]
    eps = [ctx.int(f'e{i}', 0, 1000) for i in range(n)]
    for a, b in zip(eps, eps[1:]):
        ctx.assume(a < b)
    req, rec = ctx.choice('names', [('NDCG', 'NDCG'), ('NDCG', 'NDCG@10'), ('NDCG@10', 'NDCG@10'), ('val loss', 'val loss')])
    d = {rec: vals}
    other = ctx.choice('other', [None, 'before', 'after'])
    oth = [ctx.real(f'o{i}', -10, 10) for i in range(n)] if other else None
    oname = 'NDCG@5' if req == 'NDCG@10' else 'Recall@10'
    if other == 'after':
        d[oname] = oth
    elif other == 'before':
        d = {oname: oth, rec: vals}
    losses = [ctx.real(f'l{i}', 0, 10) for i in range(n)]
    keep = {k: list(v) for k, v in d.items()}
    rule = MaxValidationValueRule(req)
    best = rule.compute(losses, d, eps)
    j = 0
    for i in range(n):
        if bool(vals[i] > vals[j]):
            j = i
    ctx.check(best == eps[j], 'the selected epoch is not the first one with the maximum')
    ctx.check(not rule.stop_training(ctx.int('cur', 0, 50), best, ctx.int('target', 0, 50)), 'the rule must not end training')
    ctx.check(list(d) == list(keep) and all(len(d[k]) == len(keep[k]) for k in keep), 'results were modified')
    # computing again, e.g. with more results, must not depend on the first computation
    vals2 = vals + [ctx.real('vx', -10, 10)]
    e2 = eps + [eps[-1] + 5]
    best2 = rule.compute(losses, {rec: vals2}, e2)
    ctx.check(best2 == If(vals2[-1] > vals[j], e2[-1], eps[j]), 'selection after one more result')


def bad(ctx):
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import InvalidEpochValidationResultsException as E
    kind = ctx.choice('kind', ['list', 'none', 'empty', 'notlist', 'missing', 'missing@', 'emptylist', 'suffix'])
    res = {'list': [1.0], 'none': None, 'empty': {}, 'notlist': {'M': 3.0}, 'missing': {'X': [1.0]}, 'missing@': {'X@5': [1.0]}, 'emptylist': {'M@5': []},
           'suffix': {'M@5': [1.0]}}[kind]
    rule = MaxValidationValueRule('M@10' if kind == 'suffix' else 'M')
    _, e = attempt(rule.compute, [], res, [] if kind == 'emptylist' else [1])
    ctx.check(isinstance(e, E), 'malformed results must be rejected')


def scenarios(tier):
    N = 7 if tier == 'thorough' else 5
    return [Scenario(f'run.{n}', run, dict(n=n), weight=n) for n in range(1, N + 1)] + [Scenario('bad', bad)]
