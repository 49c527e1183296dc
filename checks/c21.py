"""C21: training ends with the weights of the selected epoch."""
import logging

from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 700}
REAL_TF = True
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': '0..4 epochs, callback and rule frequencies 1..3 and 5, verbose or not, arbitrary weight values after every epoch and arbitrary losses and validation values, registered '
             'variables, layers and models, rules that select any epoch, fail or stop at any computation, the maximum-validation rule, a second fit',
    'thorough': '0..5 epochs, frequencies up to 4',
}
OUTSIDE = 'gradient values (updates are scripted: an optimizer assigns arbitrary values); layers that are not built when training starts; callbacks that return different metrics at different epochs'


def kit_classes():
    from symx.boot import lib
    tf = lib('tensorflow')
    from DRecPy.Recommender import RecommenderABC
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC

    def mixin(base):
        class Holder(base):
            def __init__(self, w):
                super().__init__()
                object.__setattr__(self, '_vars', [w])

            @property
            def trainable_weights(self): return list(self._vars)
            @property
            def trainable_variables(self): return list(self._vars)
            @property
            def weights(self): return list(self._vars)
            @property
            def losses(self): return []
            def get_weights(self): return [v.numpy() for v in self._vars]

            def set_weights(self, ws):
                for v, w in zip(self._vars, ws):
                    v.assign(w)
        return Holder
    return tf, RecommenderABC, EarlyStoppingRuleABC, mixin(tf.keras.layers.Layer), mixin(tf.keras.models.Model)


def value(v):
    a = v.numpy()
    return a if not hasattr(a, 'ravel') else a.ravel()[0]


class World:
    """script and log of one training"""

    def __init__(self, ctx, tag, epochs, kinds):
        self.ctx, self.kinds = ctx, kinds
        self.w = [[ctx.real(f'{tag}w{e}.{k}', -9, 9) for k in range(len(kinds))] for e in range(epochs + 1)]
        self.loss = [ctx.real(f'{tag}l{e}', 0, 9) for e in range(epochs + 1)]
        self.val = [ctx.real(f'{tag}v{e}', -9, 9) for e in range(epochs + 1)]
        self.epoch = 0
        self.vars = []
        self.called, self.ruled = [], []
        self.shapes = None

    def put(self, v, e, k):
        x = self.w[e][k]
        if self.shapes and self.shapes[k]:
            x = [x] if len(self.shapes[k]) == 1 else [[x]]
        v.assign(x)

    def set(self, e):
        for k, v in enumerate(self.vars):
            self.put(v, e, k)


def model_class():
    tf, Base, Rule, Layer, Model = kit_classes()

    class M(Base):
        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
            W = self.world
            if W.kinds[0] == 'keras':   # real layers: one of its own, one inside a model, each with a kernel and a bias
                layers = [tf.keras.layers.Dense(1) for _ in W.kinds[::2]]
                for x in layers:
                    x.build((None, 1))
                W.vars = [v for x in layers for v in x.trainable_weights]
                W.shapes = [tuple(v.shape) for v in W.vars]
                W.set(0)
                self._register_trainable(layers[0])
                if len(layers) > 1:
                    q = tf.keras.Sequential()
                    q.add(layers[1])
                    self._register_trainable(q)
                return
            W.vars = [tf.Variable(W.w[0][k], dtype=tf.float64) for k in range(len(W.kinds))]
            for kind, v in zip(W.kinds, W.vars):
                self._register_trainable(v if kind == 'var' else Layer(v) if kind == 'layer' else Model(v))

        def _sample_batch(self, batch_size, **kwds):
            self.world.epoch += 1
            return [0] * batch_size

        def _predict_batch(self, batch_samples, **kwds):
            return [0], [0]

        def _compute_batch_loss(self, predictions, desired_values, **kwds):
            W = self.world
            # differentiable with respect to all variables, value is the scripted loss
            return sum(tf.cast(tf.reduce_sum(v), tf.float64) * 0 for v in W.vars) + tf.convert_to_tensor(W.loss[W.epoch], dtype=tf.float64)

        def _predict(self, uid, iid, **kwds): return 0

        def _compute_reg_loss(self, *a, **k): return 0
    return tf, M, Rule


class Step:
    """the optimizer: assigns the scripted weights"""

    def __init__(self, W):
        self.W = W

    def apply_gradients(self, gv):
        for g, v in gv:
            k = [i for i, x in enumerate(self.W.vars) if x is v]
            self.W.ctx.check(len(k) == 1, 'an unregistered variable is updated')
            self.W.put(v, self.W.epoch, k[0])


def close_to(ctx, W, e, msg):
    for k, v in enumerate(W.vars):
        ctx.check_close(value(v), W.w[e][k], msg)


def make_rule(ctx, Rule, W, tag, any_epoch):
    class R(Rule):
        def compute(self, losses, results, called):
            from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import InvalidEpochValidationResultsException as E
            n = len(W.ruled)
            ctx.check(len(losses) == W.epoch, 'losses passed to the rule')
            for a, e in zip(losses, range(1, W.epoch + 1)):
                ctx.check_close(float(a) if not is_sym(a) and not hasattr(a, 'item') else item(a), W.loss[e], 'losses passed to the rule')
            want = [e for e in W.called]
            ctx.check(list(called) == want, 'callback epochs passed to the rule')
            if want:
                got = results['M']
                ctx.check(len(results) == 1 and len(got) == len(want), 'callback results passed to the rule')
                for g, e in zip(got, want):
                    ctx.check(veq(g, W.val[e]), 'callback results passed to the rule')
            opts = ['fail'] + (list(range(1, W.epoch + 1)) if any_epoch else []) + [e for e in want if not any_epoch or e == 0]
            best = ctx.choice(f'{tag}rule{n}', opts)
            W.ruled.append((W.epoch, best))
            if best == 'fail':
                raise E('scripted')
            return best

        def _compute_best_epoch(self, *a): pass

        def stop_training(self, current, best, target):
            ctx.check(current == W.epoch and best == W.ruled[-1][1] and target == W.target, 'arguments of the stop question')
            W.stopped = ctx.bool(f'{tag}stop{len(W.ruled)}')
            return W.stopped
    return R(['M'])


def item(t):
    a = t.numpy() if hasattr(t, 'numpy') else t
    return a.ravel()[0] if hasattr(a, 'ravel') else a


def run(ctx, epochs, kinds=('var',), callback=True, rule='script', verbose=None, fits=1, any_epoch=False, freqs=(1, 2, 3)):
    tf, M, Rule = model_class()
    logging.disable(logging.CRITICAL)
    ds = make_ds(ctx, 'mem', COLS, [(1, 1, 3.0), (2, 2, 4.0)])
    verb = ctx.bool('verbose') if verbose is None else verbose
    m = M(verbose=verb)
    for f in range(fits):
        tag = f'f{f}.'
        W = m.world = World(ctx, tag, epochs, kinds)
        W.target, W.stopped = epochs, False
        cf = ctx.choice(f'{tag}cf', list(freqs)) if callback else 5
        ef = ctx.choice(f'{tag}ef', list(freqs)) if rule else 5

        def cb(model, W=W):
            close_to(ctx, W, W.epoch, 'weights seen by the callback')
            W.called.append(W.epoch)
            return {'M': W.val[W.epoch]}

        kw = dict(epochs=epochs, batch_size=2, optimizer=Step(W))
        if callback:
            kw.update(epoch_callback_fn=cb, epoch_callback_freq=cf)
        r = None
        if rule == 'script':
            r = make_rule(ctx, Rule, W, tag, any_epoch)
        elif rule == 'max':
            from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
            r = MaxValidationValueRule('M')
        if r is not None:
            kw.update(early_stopping_rule=r, early_stopping_freq=ef)
        m.fit(ds, **kw)
        ctx.check(m.fitted, 'the model is not marked as fitted')
        ctx.check(W.epoch <= epochs and (W.epoch == epochs or W.stopped), 'number of epochs')
        want = ([0] if verb else []) + [e for e in range(1, W.epoch + 1) if e % cf == 0] if callback and (verb or rule) else []
        ctx.check(W.called == want, 'epochs at which the callback was evaluated')
        if rule == 'script':
            at = [e for e in range(1, W.epoch + 1) if e % ef == 0]
            if W.epoch and W.epoch % ef != 0:
                at.append(W.epoch)
            ctx.check([e for e, _ in W.ruled] == at, 'epochs at which the rule was computed')
            sel = [b for _, b in W.ruled if b != 'fail']
            close_to(ctx, W, sel[-1] if sel else W.epoch, 'final weights')
        elif rule == 'max' and want:
            best = want[0]
            for e in want[1:]:
                if bool(W.val[e] > W.val[best]):
                    best = e
            close_to(ctx, W, best if epochs else 0, 'final weights')
        else:
            close_to(ctx, W, W.epoch, 'final weights')


def tracker(ctx, n):
    from DRecPy.Evaluation.loss_tracker import LossTracker
    t = LossTracker()
    ls = [ctx.real(f'l{i}', -9, 9) for i in range(n)]
    for i, l in enumerate(ls):
        t.add_epoch_loss(l)
        ctx.check(len(t.epoch_losses) == i + 1 and all(veq(a, b) for a, b in zip(t.epoch_losses, ls)), 'tracked losses')
        ctx.check_close(t.get_epoch_avg_loss(), Sum(ls[:i + 1]) / (i + 1), 'average loss')
    two = ctx.bool('two')
    eps = []
    for i in range(n):
        if ctx.bool(f'at{i}'):
            eps.append(i)
            t.add_epoch_callback_result('A', ls[i], i)
            if two:
                t.add_epoch_callback_result('B', -ls[i], i)
    ctx.check(list(t.called_epochs) == eps, 'epochs of the callback results')
    if eps:
        ctx.check(set(t.epoch_callback_results) == ({'A', 'B'} if two else {'A'}), 'tracked metrics')
        for nm, sg in (('A', 1), ('B', -1)) if two else (('A', 1),):
            ctx.check(len(t.epoch_callback_results[nm]) == len(eps) and And(*[x == sg * ls[e] for x, e in zip(t.epoch_callback_results[nm], eps)]), 'callback results')
    t.reset_epoch_losses()
    ctx.check(t.epoch_losses == [] and t.get_epoch_avg_loss() == 0, 'reset of the losses')
    t.add_epoch_loss(ls[0])
    ctx.check_close(t.get_epoch_avg_loss(), ls[0], 'average loss after a reset')


def bad_callback(ctx):
    tf, M, Rule = model_class()
    logging.disable(logging.CRITICAL)
    ds = make_ds(ctx, 'mem', COLS, [(1, 1, 3.0), (2, 2, 4.0)])
    m = M(verbose=ctx.bool('verbose'))
    W = m.world = World(ctx, '', 2, ('var',))
    W.target, W.stopped = 2, False
    ret = ctx.choice('ret', [1.0, None, [('M', 1)]])
    _, e = attempt(m.fit, ds, epochs=2, optimizer=Step(W), epoch_callback_fn=lambda _: ret, epoch_callback_freq=1,
                   early_stopping_rule=__import__('DRecPy.Recommender.EarlyStopping', fromlist=['x']).MaxValidationValueRule('M'), early_stopping_freq=1)
    ctx.check(e is not None, 'a callback that does not return a dict must be rejected')


def scenarios(tier):
    T = tier == 'thorough'
    n = 5 if T else 4
    fr = (1, 2, 3, 4) if T else (1, 2, 3)
    S = lambda nm, fn=run, w=1, **kw: Scenario(nm, fn, kw, weight=w)
    out = [S('tracker', tracker, n=4), S('callback', bad_callback)]
    for e in range(0, n + 1):
        out.append(S(f'script.{e}', epochs=e, freqs=fr, w=1 + e, verbose=None if e <= 3 else True))
        out.append(S(f'norule.{e}', epochs=e, rule=None, freqs=fr + (5,)))
        out.append(S(f'max.{e}', epochs=e, rule='max', freqs=fr))
    out += [S(f'any.{e}.{cb}', epochs=e, any_epoch=True, callback=cb, freqs=(1, 2, 5), verbose=False) for e in (1, 2, 3) for cb in (True, False)]
    out += [S(f'{k}', epochs=3, kinds=(k,), freqs=(1, 2), verbose=True) for k in ('layer', 'model')]
    out += [S('mixed', epochs=2, kinds=('model', 'var', 'layer', 'var', 'model', 'layer'), freqs=(1, 2), verbose=True)]
    out += [S('keras', epochs=2, kinds=('keras',) * 4, freqs=(1, 2), verbose=True), S('keras.refit', epochs=2, fits=2, kinds=('keras',) * 2, freqs=(1, 2), verbose=False)]
    out += [S('nocallback', epochs=3, callback=False, rule=None)]
    out += [S('refit', epochs=2, fits=2, kinds=('var', 'layer'), freqs=(1, 2), verbose=False, w=2), S('refit.norule', epochs=2, fits=2, rule=None, kinds=('var', 'model'))]
    return out
