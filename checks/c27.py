"""C27: deep models learn from the right examples: every (input, prediction, target) handed to the loss is a sampled one."""
import itertools
import math

from symx import core
from symx.boot import lib
from symx.kit import *
from checks.c18 import num, need

BUDGET = {'quick': 240, 'thorough': 700}
REAL_TF = True
OPTS = {'max_draws': 7}
COLS = ['user', 'item', 'interaction']
BOUNDS = {
    'quick': 'two users, three items (four for Caser), every set of rated items of one user, two interaction values around the threshold, with and without threshold, every draw of '
             'the samplers and of the corruption, one or two examples per step, one training step (two for Caser), at most 5 to 12 draws, chosen distinct weights that identify the example a prediction was made for; both backends for CDAE and DMF',
    'thorough': 'every set of rated items in every scenario, longer series of draws',
}
OUTSIDE = 'gradients and optimiser updates (tensorflow); dropout; the frequencies of draws; users with fewer records than the sequence length for Caser'

s = lambda z: 1 / (1 + math.exp(-z))
vec_of = lambda t: [num(x) for x in (t.numpy() if hasattr(t, 'numpy') else t).ravel()]


def flat(t):
    import numpy as np
    if hasattr(t, 'numpy'):
        t = t.numpy()
    if isinstance(t, (list, tuple)):
        return [v for x in t for v in flat(x)]
    if hasattr(t, 'ravel'):
        return [x if is_sym(x) else float(x) for x in t.ravel()]
    return [t if is_sym(t) else float(t)]


def hooked(cls, steps, weights):
    """the model with the documented extension points observed: what the loss is given in each step"""
    class M(cls):
        def _pre_fit(self, *a, **k):
            super()._pre_fit(*a, **k)
            weights(self)

        def _compute_batch_loss(self, predictions, desired_values, **k):
            r = super()._compute_batch_loss(predictions, desired_values, **k)
            steps.append((predictions, desired_values, num(r)))
            return r

        def _compute_reg_loss(self, *a, **k):
            r = super()._compute_reg_loss(*a, **k)
            self.reg = num(r)
            return r

        def _update_weights(self, gradients, trainable_weights):
            pass    # the examples of every step are told apart by fixed weights
    M.__name__ = cls.__name__
    return M


def check_loss(ctx, pairs, loss, mse=False):
    """mean over the examples of the loss of each prediction against its own target"""
    clip = lambda p: min(max(p, 1e-7), 1 - 1e-7)
    f = (lambda p, d: (p - d) ** 2) if mse else (lambda p, d: -(d * math.log(clip(p)) + (1 - d) * math.log(1 - clip(p))))
    v = [f(p, d) for p, d in pairs]
    ctx.check_close(loss, sum(v) / len(v), 'loss of a step', tol=1e-3)


def stopper(losses):
    """an early stopping rule that only records the losses it is shown"""
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC

    class R(EarlyStoppingRuleABC):
        def compute(self, epoch_losses, *a, **k):
            losses[:] = [num(x) for x in epoch_losses]

        def _compute_best_epoch(self, *a, **k): pass
        def stop_training(self, *a, **k): return False
    return R(['M'])


def near(a, b, tol=1e-4):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def data(ctx, backend, pat=None, vals=(2.0, 4.0)):
    items = [30, 10, 20]
    a = ctx.choice('pattern', list(range(1, 8)) if pat is None else pat)
    v = ctx.choice('val', list(vals))
    mine = [i for j, i in enumerate(items) if a >> j & 1]
    rows = [(5, 30, 3.0), (5, 10, 5.0)] + [(7, i, v) for i in mine]
    if 20 not in mine:
        rows.append((9, 20, 3.0))
    return make_ds(ctx, backend, COLS, rows), rows


def totals(ctx, seen, steps, reg):
    ctx.check(len(seen) == len(steps), 'number of recorded losses')
    for a, (_, _, loss) in zip(seen, steps):
        ctx.check_close(a, loss + reg, 'recorded loss', tol=1e-3)


def cdae(ctx, backend, size, level, thr=None, pat=None, reach=False, epochs=1, loss='bce'):
    from DRecPy.Recommender import CDAE
    ds, rows = data(ctx, backend, pat)
    thr = 1e-3 if thr is None else thr
    ctx.assume(any(r[2] >= thr for r in rows))
    steps = []
    I, U = 3, len({r[0] for r in rows})
    w = [[0.5, 0.3], [-0.8, 0.6], [0.2, -0.9]]
    w_ = [[0.7, 0.3, -0.1], [-0.3, 0.55, 0.8]]
    v, bb, out = [[0.1, -0.2], [-0.6, 0.9], [1.2, 0.4]][:U], [0.05, -0.15], [0.3, -0.1, 0.2]

    def weights(m):
        for var, val in zip(need(m, 'W', 'W_', 'V', 'b', 'b_'), (w, w_, v, bb, out)):
            var.assign(val)
    m = hooked(CDAE, steps, weights)(hidden_factors=2, corruption_level=level, loss=loss, verbose=False, seed=3, interaction_threshold=thr)
    reg = 0.5
    seen = []
    m.fit(ds, epochs=epochs, batch_size=size, reg_rate=reg, early_stopping_rule=stopper(seen), early_stopping_freq=1)
    ctx.check(len(steps) == epochs, 'number of training steps')

    def rec(u, x):
        h = [s(sum(x[i] * w[i][k] for i in range(I)) + v[u][k] + bb[k]) for k in (0, 1)]
        return [s(sum(h[k] * w_[k][i] for k in (0, 1)) + out[i]) for i in range(I)]
    table = []   # user, which entries are dropped, target, prediction
    for u in {r[0] for r in rows}:
        y = [0.0] * I
        for a, i, r in rows:
            if a == u and r >= thr:
                y[ds.item_to_iid(i)] = 1.0
        on = [k for k in range(I) if y[k]]
        for n in range(len(on) + 1):
            for drop in itertools.combinations(on, n):
                x = [0.0 if k in drop else e / (1 - level) for k, e in enumerate(y)]
                table.append((u, drop, y, rec(ds.user_to_uid(u), x)))
    for preds, want, got in steps:
        ctx.check(len(preds) == size and len(want) == size, 'number of examples of a step')
        check_loss(ctx, list(zip(flat(preds), flat(want))), got, loss == 'mse')
        for p, d in zip(preds, want):
            p, d = flat(p), flat(d)
            hit = [t for t in table if near(p, t[3])]
            ctx.check(len(hit) > 0, 'prediction from something else than the (corrupted) interactions of a user')
            hit = [t for t in hit if near(d, t[2])]
            ctx.check(len(hit) > 0, 'target of an example')
            if level == 0:
                ctx.check(any(not t[1] for t in hit), 'entries dropped although no corruption was asked for')
            if reach:
                for t in hit:
                    for i in range(I):
                        if t[2][i]:
                            ctx.cover(f'user {t[0]}: entry {i} is {"dropped" if i in t[1] else "kept"}')
    l2 = sum(x * x for a in (w, w_, v) for row in a for x in row) / 2
    ctx.check_close(m.reg, l2 * reg / size, 'regularisation loss', tol=1e-4)
    totals(ctx, seen, steps, m.reg)


def dmf(ctx, backend, size, nce, norm, thr=None, pat=None, vals=(2.0, 4.0), epochs=1, reach=False):
    from DRecPy.Recommender import DMF
    import numpy as np
    ds, rows = data(ctx, backend, pat, vals)
    steps = []
    U = len({r[0] for r in rows})
    uw, ub = np.array([[0.4, -0.2], [0.1, 0.6], [-0.3, 0.5]]), np.array([0.9, 0.7])
    iw, ib = np.array([[0.3, 0.2], [-0.1, 0.7], [0.6, -0.5]])[:U], np.array([0.8, 0.5])

    def weights(m):
        un, inn = need(m, 'user_nn', 'item_nn')
        un.set_weights([uw, ub])
        inn.set_weights([iw, ib])
    kw = {} if thr is None else {'interaction_threshold': thr}
    m = hooked(DMF, steps, weights)(user_factors=[2], item_factors=[2], use_nce=nce, l2_norm_vectors=norm, verbose=False, seed=3, **kw)
    seen = []
    m.fit(ds, epochs=epochs, batch_size=size, neg_ratio=1, reg_rate=0.5, early_stopping_rule=stopper(seen), early_stopping_freq=1)
    thr = m.interaction_threshold
    ctx.check(len(steps) == epochs, 'number of training steps')
    users, items = sorted({r[0] for r in rows}), sorted({r[1] for r in rows})
    R, pos = np.zeros((U, 3)), {}
    for u, i, r in rows:
        R[ds.user_to_uid(u), ds.item_to_iid(i)] += r
        if r >= thr:
            pos[u, i] = r
    vs = [r[2] for r in rows]
    lo, hi = min(vs), max(vs)
    lo = 0 if lo == 1 else lo
    unit = lambda x: x / math.sqrt(max((x * x).sum(), 1e-12))
    table = []
    for u in users:
        for i in items:
            x, y = R[ds.user_to_uid(u)], R[:, ds.item_to_iid(i)]
            if norm:
                x, y = unit(x), unit(y)
            p, q = np.maximum(x @ uw + ub, 0), np.maximum(y @ iw + ib, 0)
            v = pos.get((u, i), 0.0)
            table.append((u, i, max(1e-6, float((unit(p) * unit(q)).sum())), (v - lo) / (hi - lo) if nce else v))
    for preds, want, loss in steps:
        preds, want = flat(preds), flat(want)
        ctx.check(len(preds) == size and len(want) == size, 'number of examples of a step')
        check_loss(ctx, list(zip(preds, want)), loss)
        for p, d in zip(preds, want):
            hit = [t for t in table if near([p], [t[2]])]
            ctx.check(len(hit) > 0, 'prediction for something else than a pair of the dataset')
            hit = [t for t in hit if near([d], [t[3]])]
            ctx.check(len(hit) > 0, 'target of an example')
            if reach and len(hit) == 1:
                ctx.cover(f'{"positive" if (hit[0][0], hit[0][1]) in pos else "negative"} pair {hit[0][0]}, {hit[0][1]}')
    reg = 0.5 * float((uw * uw).sum() + (iw * iw).sum())
    ctx.check_close(m.reg, reg, 'regularisation loss', tol=1e-4)
    totals(ctx, seen, steps, m.reg)


def caser(ctx, size, T=1, neg=1, backend='mem', epochs=1, sort=True, big=False, long=False, nh=2):
    from DRecPy.Recommender import Caser
    import numpy as np
    L, k = 2, 2 + T
    items = [30, 10, 20, 40] + ([50] if big else [])
    n = len(items)
    # sequences of the users, in the order of their timestamps or of their rows: each has a run and enough unseen items
    seqs = {5: [30, 10, 20], 7: [10, 40, 20], 9: [50, 30, 40]} if k == 3 else {5: [30, 10, 20, 50], 7: [10, 40, 20, 30]}
    if not big:
        del seqs[9]
    elif long:
        seqs[7] = [10, 40, 20, 30]
    rows = []
    for u, q in seqs.items():
        ts = [ctx.int(f't{j}', 1, 9) for j in range(len(q))] if sort and u == 7 else list(range(1, len(q) + 1))
        if sort and u == 7:
            ctx.assume(And(*[ts[i] != ts[j] for i in range(len(q)) for j in range(i)]))
        rows += [(u, i, 3.0, t) for i, t in zip(q, ts)]
    U = len({r[0] for r in rows})
    ds = make_ds(ctx, backend, COLS + (['timestamp'] if sort else ['other']), rows)
    e, g = [0.3, 0.8, -0.5, 1.1, -0.2][:n], [0.4, -0.7, 0.9][:U]
    k0, k1 = 0.6, 1.3
    ww = [[0.2, 0.5], [-0.3, 0.1], [0.9, -0.4], [0.05, 0.7], [-0.6, 0.15]][:n]
    bias = [0.11, -0.37, 0.83, -0.64, 0.42][:n]
    A = lambda x: np.array(x, dtype=np.float32)
    hw = [[[0.7, -0.4][f % 2]] if i == 0 else [[0.5, -0.9], [-0.2, 0.6]][f % 2] for i in range(L) for f in range(nh)]     # horizontal filters, per size
    hb, dh = [0.05, -0.1, 0.2, 0.15][:L * nh], [0.4, -0.3, 0.25, 0.35][:L * nh]
    steps = []

    def weights(m):
        m._rank(0, [0], 1, False)    # builds the layers
        ue, ie, cv, ch, d0, w, b = need(m, 'user_embeddings', 'item_embeddings', 'conv_v', 'convs_h', 'dense_0', 'dense_1_W', 'dense_1_b')
        ue.set_weights([A(g).reshape(U, 1)])
        ie.set_weights([A(e).reshape(n, 1)])
        cv.set_weights([A([k0, k1]).reshape(2, 1, 1), A([0.1])])
        for i, h in enumerate(ch):
            h.set_weights([A([[[hw[i * nh + f][j] for f in range(nh)]] for j in range(i + 1)]), A(hb[i * nh:i * nh + nh])])
        d0.set_weights([A([1.5] + dh).reshape(1 + L * nh, 1), A([0.2])])
        w.set_weights([A(ww)])
        b.set_weights([A(bias).reshape(n, 1)])
    m = hooked(Caser, steps, weights)(L=L, T=T, d=1, n_v=1, n_h=nh, verbose=False, seed=3, dropout_rate=0.0, **({} if sort else {'sort_column': None}))
    seen = []
    m.fit(ds, epochs=epochs, batch_size=size, neg_ratio=neg, reg_rate=0.5, early_stopping_rule=stopper(seen), early_stopping_freq=1)
    ctx.check(len(steps) == epochs, 'number of training steps')
    table = []
    for u in {r[0] for r in rows}:
        own = [r for r in rows if r[0] == u]
        if sort:
            own = sorted(own, key=lambda r: r[3])
        seq = [r[1] for r in own]
        free = [i for i in items if i not in seq]
        for at in range(len(seq) - k + 1):
            a, b = seq[at:at + 2]
            ea, eb = e[ds.item_to_iid(a)], e[ds.item_to_iid(b)]
            hor = [max(max(0.0, w[0] * ea + c), max(0.0, w[0] * eb + c)) if len(w) == 1 else max(0.0, w[0] * ea + w[1] * eb + c) for w, c in zip(hw, hb)]
            z = max(0.0, 1.5 * (k0 * ea + k1 * eb + 0.1) + sum(x * y for x, y in zip(dh, hor)) + 0.2)
            gu = g[ds.user_to_uid(u)]
            sc = {i: s(z * ww[ds.item_to_iid(i)][0] + gu * ww[ds.item_to_iid(i)][1] + bias[ds.item_to_iid(i)]) for i in items}
            for negs in itertools.permutations(free, T * neg):
                table.append([sc[i] for i in seq[at + 2:at + k] + list(negs)])
    for preds, want, loss in steps:
        ctx.check(len(preds) == size and len(want) == size, 'number of examples of a step')
        for p, d in zip(preds, want):
            p, d = flat(p), flat(d)
            ctx.check(near(d, [1.0] * T + [0.0] * (T * neg)), 'targets of an example')
            ctx.check(any(near(p, t) for t in table), 'predictions for something else than a run of a user, its next items and unseen items')
        check_loss(ctx, [(a, b) for p, d in zip(preds, want) for a, b in zip(flat(p), flat(d))], loss)
    sq = lambda *xs: sum(x * x for x in xs)
    reg = 0.5 * (sq(*g) + sq(*e) + sq(k0, k1) + sq(1.5, *dh) + sq(*[x for w in hw for x in w]) + sq(*[x for r in ww for x in r]))
    ctx.check_close(m.reg, reg, 'regularisation loss', tol=1e-3)
    totals(ctx, seen, steps, m.reg)


def scenarios(tier):
    T = tier == 'thorough'
    E = 2
    def S(nm, fn, w=1, goals=None, d=None, **kw):
        d = d or {cdae: 8 if T else 7, dmf: 7 if T else 5, caser: 12}[fn]
        return Scenario(nm, fn, kw, weight=w, opts={'max_draws': d}, **({'goals': goals} if goals else {}))
    few = None if T else [1, 6, 7]
    out = []
    for b in ('mem', 'db'):
        pat = None if b == 'mem' or T else [1, 6]
        out.append(S(f'cdae.{b}', cdae, 2, backend=b, size=1, level=0.25, pat=pat))
        out.append(S(f'cdae.{b}.thr', cdae, 2, backend=b, size=1, level=0.25, thr=3.0, pat=few))
        out.append(S(f'cdae.{b}.clean', cdae, 1, backend=b, size=1, level=0.0, pat=few))
        for nce in (True, False):
            out.append(S(f'dmf.{b}.{nce}', dmf, 2, backend=b, size=1, nce=nce, norm=True, pat=pat))
        out.append(S(f'dmf.{b}.thr', dmf, 2, backend=b, size=1, nce=True, norm=False, thr=3.0, vals=(1.0, 4.0), pat=few))
    out.append(S('cdae.mse', cdae, 1, backend='mem', size=1, level=0.25, loss='mse', pat=[5, 6]))
    out.append(S('cdae.two', cdae, 2, backend='mem', size=2, level=0.5, pat=[4] if not T else [4, 5], d=10 if not T else 12))
    out.append(S('cdae.reach', cdae, 1, backend='mem', size=1, level=0.25, pat=[4], reach=True,
                 goals=[f'user {u}: entry {i} is {x}' for u, es in ((5, (0, 1)), (7, (2,))) for i in es for x in ('dropped', 'kept')]))
    out.append(S('dmf.two', dmf, 2, backend='mem', size=2, nce=True, norm=True, pat=[5] if not T else None, d=7, epochs=1))
    out.append(S('dmf.reach', dmf, 1, backend='mem', size=1, nce=True, norm=False, pat=[4], reach=True, vals=(2.0,),
                 goals=[f'positive pair {p}' for p in ('5, 30', '5, 10', '7, 20')] + [f'negative pair {p}' for p in ('5, 20', '7, 10', '7, 30')]))
    out.append(S('caser.1', caser, 2, size=1))
    out.append(S('caser.db', caser, 2, size=1, backend='db'))
    out.append(S('caser.neg', caser, 2, size=1, neg=2, big=True, sort=False))
    out.append(S('caser.filter', caser, 2, size=1, sort=False, nh=1))
    out.append(S('caser.long', caser, 2, size=1, big=True, long=True, sort=T))
    out.append(S('caser.T', caser, 2, size=1, T=2, neg=0, big=True, sort=T))
    out.append(S('caser.two', caser, 2, size=2, sort=T, epochs=E))
    return out
