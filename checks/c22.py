"""C22: the loss tracker reports the exact history."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
BOUNDS = {
    'quick': 'every sequence of 5 operations (record a loss, reset, record a result of one of two metrics, draw the graph) with arbitrary losses, results and epochs 0..3 '
             '(non-decreasing, as training reports them)',
    'thorough': '6 operations',
}
OUTSIDE = 'longer sequences; rounding of the running mean in double arithmetic; results reported for an earlier epoch than one already reported'


def run(ctx, n, first):
    from DRecPy.Evaluation import LossTracker
    t = LossTracker()
    losses, results, epochs = [], {}, []
    last = 0
    for i in range(n):
        op = first if i == 0 else ctx.choice(f'op{i}', ['loss', 'reset', 'A', 'B', 'graph'])
        if op == 'loss':
            v = ctx.real(f'v{i}', -50, 50)
            t.add_epoch_loss(v)
            losses.append(v)
        elif op == 'reset':
            t.reset_epoch_losses()
            losses = []
        elif op == 'graph':
            ok = all(len(r) == len(epochs) for r in results.values())
            attempt(t.display_graph, model_name=ctx.choice(f'nm{i}', [None, 'm']), stopping_epoch=None)
        else:
            v, e = ctx.real(f'v{i}', -50, 50), ctx.int(f'e{i}', 0, 3)
            ctx.assume(e >= last)
            last = e
            t.add_epoch_callback_result(op, v, e)
            results.setdefault(op, []).append(v)
            if not epochs or bool(e != epochs[-1]):
                epochs.append(e)
        avg = t.get_epoch_avg_loss()
        if losses:
            ctx.check_close(avg * len(losses), Sum(losses), 'mean loss')
        else:
            ctx.check(avg == 0, 'mean loss without losses')
        ctx.check(len(t.epoch_losses) == len(losses) and And(*[a == b for a, b in zip(t.epoch_losses, losses)]), 'losses')
        ctx.check(sorted(t.epoch_callback_results) == sorted(results), 'metrics')
        for m, r in results.items():
            got = t.epoch_callback_results[m]
            ctx.check(len(got) == len(r) and And(*[a == b for a, b in zip(got, r)]), 'results of a metric')
        ctx.check(len(t.called_epochs) == len(epochs) and And(*[a == b for a, b in zip(t.called_epochs, epochs)]), 'epochs')


def scenarios(tier):
    n = 6 if tier == 'thorough' else 5
    return [Scenario(f'seq.{f}', run, dict(n=n, first=f)) for f in ('loss', 'reset', 'A', 'B', 'graph')]
