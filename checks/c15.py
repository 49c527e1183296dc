"""C15: predictive evaluation measures the true errors."""
from symx import core
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': '1..3 test rows with arbitrary interactions, every prediction a value, nothing or an error, every limit (none, 1..4), flags, all three metrics, '
             'evaluation on a test set or on the training data, both backends, integer or string ids',
    'thorough': '4 test rows',
}
OUTSIDE = 'more rows; test sets of which no row can be predicted (the metrics are undefined and raise)'


class Boom(Exception):
    pass


class Model_:
    """a recommender whose predictions are given"""

    def __init__(self, preds):
        self.preds, self.calls, self.interaction_dataset = preds, [], None

    def predict(self, user_id, item_id, skip_errors=False, **kw):
        self.calls.append((user_id, item_id))
        p = self.preds[(user_id, item_id)]
        if isinstance(p, str) or p is None:
            if skip_errors:
                return None
            raise Boom(str(p))
        return p


def metrics_ok(ctx, M, true, pred, got, tag):
    n = len(true)
    sq = Sum([(a - b) * (a - b) for a, b in zip(true, pred)]) / (1.0 * n)
    ab = Sum([If(a >= b, a - b, b - a) for a, b in zip(true, pred)]) / (1.0 * n)
    want = {'MSE': sq, 'MAE': ab}
    tol = 0.0000501 if tag == 'round' else 1e-6
    for k, v in want.items():
        if k in got:
            d = got[k] - v
            ctx.check(And(d <= tol, -d <= tol), f'{k} is wrong')
    if 'RMSE' in got:
        d = got['RMSE'] - (core.sym_sqrt(sq) if is_sym(sq) else sq ** 0.5)
        ctx.check(And(d <= tol, -d <= tol), 'RMSE is wrong')


def evaluate(ctx, backend, n, kind='int', fail=True, metric='all'):
    from DRecPy.Evaluation.Processes import predictive_evaluation
    from DRecPy.Evaluation.Metrics import MSE, RMSE, MAE
    rows, preds = [], {}
    for i in range(n):
        u, it = (5 + i % 2, 20 - i) if kind == 'int' else (f'u{i % 2}', f'i{i}')
        rows.append((u, it, ctx.real(f'r{i}', -5, 5)))
        o = ctx.choice(f'o{i}', ['value', 'none', 'error']) if fail else 'value'
        preds[(u, it)] = ctx.real(f'p{i}', -5, 5) if o == 'value' else (None if o == 'none' else 'boom')
    ds = make_ds(ctx, backend, COLS, rows)
    model = Model_(preds)
    lim = ctx.choice('limit', [None] + list(range(1, n + 2)))
    cnt, skip = ctx.bool('count_none'), ctx.bool('skip_errors')
    kw = dict(count_none_predictions=cnt, skip_errors=skip, verbose=ctx.bool('verbose'))
    if lim is not None:
        kw['n_test_predictions'] = lim
    if metric == 'all':
        kw['metrics'] = [RMSE(), MAE(), MSE()]
    if ctx.bool('on_train'):
        model.interaction_dataset = ds
    else:
        kw['ds_test'] = ds
    # which rows count
    true, pred, err = [], [], False
    for u, it, v in rows:
        if len(true) >= (n if lim is None else min(lim, n)):
            break
        p = preds[(u, it)]
        bad = p is None or isinstance(p, str)
        if bad and not skip:
            err = True
            break
        if bad and not cnt:
            continue
        true.append(v)
        pred.append(0 if bad else p)
    res, e = attempt(predictive_evaluation, model, **kw)
    if err:
        ctx.check(isinstance(e, Boom), 'an error of the model must be propagated')
        return
    if not true:
        return
    ctx.check(e is None, f'evaluation failed ({type(e).__name__})')
    ctx.check(set(res) == ({'RMSE', 'MAE', 'MSE'} if metric == 'all' else {'RMSE', 'MSE'}), 'names of the metrics')
    metrics_ok(ctx, None, true, pred, res, 'round')


def plain(ctx, n):
    from DRecPy.Evaluation.Metrics import MSE, RMSE, MAE
    true = [ctx.real(f't{i}', -100, 100) for i in range(n)]
    pred = [ctx.real(f'p{i}', -100, 100) for i in range(n)]
    metrics_ok(ctx, None, true, pred, {m.name: m(true, pred) for m in (MSE(), RMSE(), MAE())}, 'exact')


def args(ctx):
    from DRecPy.Evaluation.Processes import predictive_evaluation
    from DRecPy.Evaluation.Metrics import MSE, Precision
    ds = make_ds(ctx, 'mem', COLS, [(1, 1, 1.0)])
    model = Model_({(1, 1): 2.0})
    lim = ctx.int('lim', -3, 2)
    ms = ctx.choice('metrics', ['ok', 'tuple', 'ranking', 'empty'])
    metrics = {'ok': [MSE()], 'tuple': (MSE(),), 'ranking': [MSE(), Precision()], 'empty': []}[ms]
    res, e = attempt(predictive_evaluation, model, ds, n_test_predictions=lim, metrics=metrics, verbose=False)
    if bool(lim <= 0) or ms in ('tuple', 'ranking'):
        ctx.check(e is not None, 'invalid parameters must be rejected')
    else:
        ctx.check(e is None and set(res) == {m.name for m in metrics}, 'valid parameters were rejected')


def scenarios(tier):
    N = 4 if tier == 'thorough' else 3
    out = [Scenario('args', args)]
    for n in range(1, N + 1):
        out.append(Scenario(f'mem.{n}', evaluate, dict(backend='mem', n=n), weight=n))
        out.append(Scenario(f'metrics.{n}', plain, dict(n=n)))
    out.append(Scenario('mem.str', evaluate, dict(backend='mem', n=2, kind='str', metric='default')))
    out.append(Scenario('db.2', evaluate, dict(backend='db', n=2), weight=2))
    return out
