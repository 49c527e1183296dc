"""A small eager-tensor stand-in for the part of tensorflow that DRecPy touches (symbolic process only).

Gradients are not modelled: GradientTape.gradient returns zero tensors of the right structure; the
harnesses install their own optimizer, which assigns scripted weights.  sigmoid / log / exp of a symbolic value are
uninterpreted (monotone, with range facts).
"""
import copy
import math
import types

import numpy as np
import z3

from . import core
from .core import SymBase, SymNum, SymReal

SIG = z3.Function('sigmoid', z3.RealSort(), z3.RealSort())


def _obj(a):
    if isinstance(a, Tensor):
        return a.a
    if isinstance(a, np.ndarray):
        return a.astype(object) if a.dtype != object else a
    if isinstance(a, (list, tuple)):
        parts = [_obj(x) for x in a]
        if not parts:
            return np.empty((0,), dtype=object)
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            if p.shape != parts[0].shape:
                raise ValueError("Can't convert non-rectangular Python sequence to Tensor.")
            out[i] = p if p.shape else p[()]
        return out
    if hasattr(a, 'toarray'):
        return _obj(a.toarray())
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    return fo.reshape(a.shape)


def _map2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    fa, fb = list(a.ravel()), list(b.ravel())
    fo = [f(x, y) for x, y in zip(fa, fb)]
    flat = out.reshape(-1)
    for i, v in enumerate(fo):
        flat[i] = v
    return flat.reshape(a.shape)


def _div(x, y):
    if isinstance(y, SymBase) or isinstance(x, SymBase):
        return x / y
    if y == 0:
        return float('nan') if x == 0 else math.copysign(float('inf'), x)
    return x / y


class Tensor:
    __array_ufunc__ = None
    __array_priority__ = 1e10

    def __init__(self, a):
        self.a = _obj(a)

    @property
    def shape(self): return self.a.shape

    def numpy(self):
        if any(isinstance(v, SymBase) for v in self.a.ravel()):
            return self.a.copy() if self.a.shape else self.a[()]
        r = self.a.astype(float)
        return r if r.shape else np.float64(r[()])

    def __array__(self, dtype=None, copy=None): return self.numpy()

    def __round__(self, n=None): return round(self.item(), n) if n is not None else round(self.item())

    def item(self): return self.a[()] if not self.a.shape else self.a.ravel()[0]

    def __len__(self):
        if not self.a.shape:
            raise TypeError('Scalar tensor has no `len()`')
        return self.a.shape[0]

    def __iter__(self):
        if not self.a.shape:
            raise TypeError('Cannot iterate over a scalar tensor.')
        for i in range(self.a.shape[0]):
            yield Tensor(self.a[i])

    def __getitem__(self, i):
        return Tensor(self.a[i])

    def _b(self, o, f): return Tensor(_map2(f, self.a, _obj(o)))
    def __add__(self, o): return self._b(o, lambda x, y: x + y)
    def __radd__(self, o): return self._b(o, lambda x, y: y + x)
    def __sub__(self, o): return self._b(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._b(o, lambda x, y: y - x)
    def __mul__(self, o): return self._b(o, lambda x, y: x * y)
    def __rmul__(self, o): return self._b(o, lambda x, y: y * x)
    def __truediv__(self, o): return self._b(o, _div)
    def __rtruediv__(self, o): return self._b(o, lambda x, y: _div(y, x))
    def __pow__(self, o): return self._b(o, lambda x, y: x ** y)
    def __neg__(self): return Tensor(_map(lambda x: -x, self.a))
    def __abs__(self): return Tensor(_map(abs, self.a))
    def __matmul__(self, o): return matmul(self, o)

    def _c(self, o, f):
        r = _map2(f, self.a, _obj(o))
        return Tensor(r) if r.shape else r[()]

    def __lt__(self, o): return self._c(o, lambda x, y: x < y)
    def __le__(self, o): return self._c(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._c(o, lambda x, y: x > y)
    def __ge__(self, o): return self._c(o, lambda x, y: x >= y)
    def __eq__(self, o):
        if o is None:
            return False
        return self._c(o, lambda x, y: x == y)
    def __ne__(self, o):
        if o is None:
            return True
        return self._c(o, lambda x, y: x != y)

    def __hash__(self): raise TypeError('Tensor is unhashable. Instead, use tensor.ref() as the key.')
    def __bool__(self): return bool(self.item())
    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return int(self.item())
    def __format__(self, spec):
        if not self.a.shape:
            v = self.item()
            return format(v, spec) if not isinstance(v, SymBase) else str(v)
        return str(self.a)
    def __repr__(self): return f'<tf.Tensor {self.a}>'
    def __deepcopy__(self, memo): return type(self)(self.a.copy())


class Variable(Tensor):
    def __init__(self, initial_value=None, trainable=True, name=None, dtype=None, **k):
        Tensor.__init__(self, _obj(initial_value).copy())
        self.trainable = trainable

    def assign(self, v, **k):
        b = _obj(v)
        if b.shape != self.a.shape:
            raise ValueError(f'Cannot assign value to variable: Shape mismatch {self.a.shape} vs {b.shape}')
        self.a = b.copy()
        return self

    def assign_add(self, v): return self.assign(self + v)
    def assign_sub(self, v): return self.assign(self - v)
    def value(self): return Tensor(self.a.copy())
    read_value = value


def matmul(a, b, **k):
    a, b = _obj(a), _obj(b)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(f'Matrix size-incompatible: {a.shape} {b.shape}')
    out = np.empty(a.shape[:-1] + (b.shape[-1],), dtype=object)
    for idx in np.ndindex(a.shape[:-1]):
        for j in range(b.shape[-1]):
            s = 0.0
            for t in range(a.shape[-1]):
                s = s + a[idx + (t,)] * b[t, j]
            out[idx + (j,)] = s
    return Tensor(out)


def _sig(x):
    if not isinstance(x, SymBase):
        x = float(x)
        return 1 / (1 + math.exp(-x)) if x > -700 else 0.0
    c = core.ctx()
    e = z3.simplify(core._to_real(x.e))
    lst = c.__dict__.setdefault('_sigs', [])
    for e2, t in lst:
        if e2.eq(e):
            return SymReal(t)
    t = SIG(e)
    c.add(z3.And(t > 0, t < 1))
    for e2, t2 in lst:
        c.add(z3.And(z3.Implies(e < e2, t < t2), z3.Implies(e > e2, t > t2)))
    lst.append((e, t))
    return SymReal(t)


def sigmoid(x, **k): return Tensor(_map(_sig, _obj(x)))


def _relu(x):
    if isinstance(x, SymBase):
        return core.If(x > 0, x, 0.0)
    return x if x > 0 else 0.0


def relu(x, **k): return Tensor(_map(_relu, _obj(x)))


def _axis_sum(a, axis, keepdims=False):
    if axis is None:
        s = 0.0
        for v in a.ravel():
            s = s + v
        return _obj(s)
    axis = axis % a.ndim
    mv = np.moveaxis(a, axis, -1)
    out = np.empty(mv.shape[:-1], dtype=object)
    for idx in np.ndindex(mv.shape[:-1]):
        s = 0.0
        for v in mv[idx]:
            s = s + v
        out[idx] = s
    return np.expand_dims(out, axis) if keepdims else out


def reduce_sum(x, axis=None, keepdims=False, **k): return Tensor(_axis_sum(_obj(x), axis, keepdims))


def reduce_mean(x, axis=None, **k):
    a = _obj(x)
    n = a.size if axis is None else a.shape[axis]
    return Tensor(_axis_sum(a, axis)) / n


def l2_normalize(x, axis=None, epsilon=1e-12, **k):
    a = _obj(x)
    s = _axis_sum(_map2(lambda p, q: p * q, a, a), axis, True)

    def inv(v):
        if isinstance(v, SymBase):
            if bool(v < epsilon):
                return 1 / math.sqrt(epsilon)
            return 1 / core.sym_sqrt(v)
        return 1 / math.sqrt(max(v, epsilon))
    return Tensor(_map2(lambda p, q: p * q, a, _map(inv, s)))


def _max2(x, y):
    if isinstance(x, SymBase) or isinstance(y, SymBase):
        return x if bool(x >= y) else y
    return max(x, y)


def _min2(x, y):
    if isinstance(x, SymBase) or isinstance(y, SymBase):
        return x if bool(x <= y) else y
    return min(x, y)


def _axis_fold(f):
    def reduce(x, axis=None, keepdims=False, **k):
        a = _obj(x)
        if axis is None:
            a, axis = a.reshape(-1), 0
        axis = axis % a.ndim
        mv = np.moveaxis(a, axis, -1)
        out = np.empty(mv.shape[:-1], dtype=object)
        for idx in np.ndindex(mv.shape[:-1]):
            m = mv[idx][0]
            for v in mv[idx][1:]:
                m = f(m, v)
            out[idx] = m
        return Tensor(np.expand_dims(out, axis) if keepdims else out)
    return reduce


class Layer:
    def __init__(self, *a, **k):
        self._w = []
        self.built = False

    @property
    def trainable_weights(self): return list(self._w)
    @property
    def trainable_variables(self): return list(self._w)
    @property
    def weights(self): return list(self._w)
    @property
    def variables(self): return list(self._w)
    @property
    def losses(self): return [self.reg(self._w[0])] if getattr(self, 'reg', None) is not None and self._w else []

    def get_weights(self): return [w.numpy() for w in self._w]

    def set_weights(self, ws):
        ws = list(ws)
        if len(ws) != len(self._w):
            raise ValueError(f'You called `set_weights(weights)` on layer with a weight list of length {len(ws)}, but '
                             f'the layer was expecting {len(self._w)} weights.')
        for w, v in zip(self._w, ws):
            w.assign(v)

    def build(self, shape): pass

    def __call__(self, x, **k):
        if not self.built:
            self.build(_obj(x).shape)
            self.built = True
        return self.call(x, **k)

    def call(self, x, **k): return x


class Embedding(Layer):
    def __init__(self, n, d, **k):
        super().__init__()
        self.n, self.d = n, d
        self.reg = k.get('embeddings_regularizer')

    def build(self, shape):
        self._w = [Variable(np.zeros((self.n, self.d)))]

    def call(self, x, **k): return embedding_lookup(self._w[0], x)


class Dense(Layer):
    def __init__(self, units, activation=None, input_shape=None, **k):
        super().__init__()
        self.units, self.act = units, activation
        self.reg = k.get('kernel_regularizer')
        self.input_shape = input_shape

    def build(self, shape):
        self._w = [Variable(np.zeros((shape[-1], self.units))), Variable(np.zeros((self.units,)))]

    def call(self, x, **k):
        r = matmul(x, self._w[0]) + self._w[1]
        return self.act(r) if callable(self.act) else r


class Conv1D(Layer):
    def __init__(self, filters, kernel_size, **k):
        super().__init__()
        self.filters = filters
        self.reg = k.get('kernel_regularizer')
        self.k = kernel_size if isinstance(kernel_size, int) else kernel_size[0]

    def build(self, shape):
        self._w = [Variable(np.zeros((self.k, shape[-1], self.filters))), Variable(np.zeros((self.filters,)))]

    def call(self, x, **kw):
        a = _obj(x)
        w, b = self._w[0].a, self._w[1].a
        T = a.shape[1] - self.k + 1
        if T < 1:
            raise ValueError('negative dimension size')
        out = np.empty((a.shape[0], T, self.filters), dtype=object)
        for bi in range(a.shape[0]):
            for t in range(T):
                for f in range(self.filters):
                    s = b[f]
                    for i in range(self.k):
                        for c in range(a.shape[2]):
                            s = s + a[bi, t + i, c] * w[i, c, f]
                    out[bi, t, f] = s
        return Tensor(out)


class Dropout(Layer):
    def __init__(self, rate, **k):
        super().__init__()
        self.rate = rate

    def call(self, x, training=False, **k):
        if training and self.rate != 0:
            core.raise_unsupported('dropout in training mode')
        return x


class Model(Layer):
    pass


class Sequential(Model):
    def __init__(self, layers=None, **k):
        super().__init__()
        self.layers = []
        for l in layers or []:
            self.add(l)

    def add(self, l):
        if not l.built and isinstance(l, Dense):
            prev = [p for p in self.layers if isinstance(p, Dense)]
            if not prev and l.input_shape is not None:
                l.build((None,) + tuple(l.input_shape))
                l.built = True
            elif prev:
                l.build((None, prev[-1].units))
                l.built = True
        self.layers.append(l)

    @property
    def _w(self): return [w for l in getattr(self, 'layers', []) for w in l._w]

    @_w.setter
    def _w(self, v): pass

    @property
    def losses(self): return [x for l in self.layers for x in l.losses]

    def call(self, x, **k):
        for l in self.layers:
            x = l(x)
        return x


def embedding_lookup(params, ids, **k):
    p, i = _obj(params), _obj(ids)
    n = p.shape[0]

    def at(x):
        if x is None:
            raise ValueError('Attempt to convert a value (None) with an unsupported type to a Tensor.')
        x = int(x)
        if not 0 <= x < n:
            raise IndexError(f'indices = {x} is not in [0, {n})')
        return x
    if not i.shape:
        return Tensor(p[at(i[()])])
    out = np.empty(i.shape + p.shape[1:], dtype=object)
    for idx in np.ndindex(i.shape):
        out[idx] = p[at(i[idx])]
    return Tensor(out)


class GradientTape:
    def __init__(self, **k): self.watched = []
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def watch(self, t): self.watched.append(t)

    def gradient(self, target, sources, **k):
        def z(s):
            if isinstance(s, (list, tuple)):
                return [z(x) for x in s]
            return Tensor(_map(lambda v: 0.0, s.a))
        return z(list(sources) if isinstance(sources, (list, tuple)) else sources)


class Optimizer:
    def __init__(self, learning_rate=0.001, **k): self.learning_rate = learning_rate
    def apply_gradients(self, gv, **k):
        list(gv)


class _L2:
    def __init__(self, l2=0.01, **k): self.l2 = l2
    def __call__(self, w): return reduce_sum(Tensor(_map2(lambda x, y: x * y, _obj(w), _obj(w)))) * self.l2


def _shape_of(x):
    return [_shape_of(v) for v in x] if isinstance(x, (list, tuple)) else None


class _Loss:
    """mean over the last axis, then over everything else; the arguments must have the same nesting of lists"""
    def __init__(self, *a, **k): pass

    def __call__(self, y, p, **k):
        if _shape_of(y) != _shape_of(p):
            raise ValueError('Expected an instance of list: y_true and y_pred have different structures')
        y, p = _obj(y), _obj(p)
        if p.ndim == y.ndim + 1 and p.shape[-1] == 1:
            p = p[..., 0]
        elif y.ndim == p.ndim + 1 and y.shape[-1] == 1:
            y = y[..., 0]
        return reduce_mean(Tensor(_map2(self.f, y, p)))

    @staticmethod
    def f(a, b): return (a - b) * (a - b)


class _Bce(_Loss):
    @staticmethod
    def f(a, b):
        if isinstance(b, SymBase) or isinstance(a, SymBase):
            core.raise_unsupported('cross-entropy of unknown values')
        b = min(max(float(b), 1e-7), 1 - 1e-7)
        return -(float(a) * math.log(b) + (1 - float(a)) * math.log(1 - b))


def max_pool1d(x, ksize, strides, padding, **k):
    a = _obj(x)
    n = -(-a.shape[1] // strides)
    out = np.empty((a.shape[0], n, a.shape[2]), dtype=object)
    for b in range(a.shape[0]):
        for t in range(n):
            for c in range(a.shape[2]):
                pad = max((n - 1) * strides + ksize - a.shape[1], 0) // 2
                lo, hi = max(t * strides - pad, 0), min(t * strides - pad + ksize, a.shape[1])
                m = a[b, lo, c]
                for q in range(lo + 1, hi):
                    m = _max2(m, a[b, q, c])
                out[b, t, c] = m
    return Tensor(out)


def is_tensor(x): return isinstance(x, Tensor)


def make_module():
    def mod(name, **k):
        m = types.ModuleType(name)
        for a, b in k.items():
            setattr(m, a, b)
        return m
    tf = mod('tensorflow')
    tf.Tensor, tf.Variable, tf.GradientTape = Tensor, Variable, GradientTape
    tf.float32, tf.float64, tf.int32, tf.int64 = 'float32', 'float64', 'int32', 'int64'
    tf.convert_to_tensor = lambda x, dtype=None, **k: Tensor(x)
    tf.constant = lambda x, dtype=None, **k: Tensor(x)
    def cast(x, dtype=None, **k):
        if 'float' not in str(dtype):
            for v in _obj(x).ravel():
                if not isinstance(v, (int, np.integer, core.SymInt)) or isinstance(v, bool):
                    core.raise_unsupported('tensorflow cast to ' + str(dtype))
        return Tensor(x)
    tf.cast = cast
    tf.stack = lambda xs, axis=0, **k: Tensor(np.stack([_obj(x) for x in xs], axis))
    tf.identity = lambda x: Tensor(_obj(x).copy())
    tf.zeros = lambda shape, dtype=None: Tensor(np.zeros(shape))
    tf.ones = lambda shape, dtype=None: Tensor(np.ones(shape))
    tf.matmul, tf.sigmoid, tf.reduce_sum, tf.reduce_mean = matmul, sigmoid, reduce_sum, reduce_mean
    tf.multiply = lambda a, b, **k: Tensor(a) * b
    tf.add = lambda a, b, **k: Tensor(a) + b
    tf.subtract = lambda a, b, **k: Tensor(a) - b
    tf.divide = lambda a, b, **k: Tensor(a) / b
    tf.square = lambda a, **k: Tensor(a) * Tensor(a)
    tf.zeros_like = lambda x, **k: Tensor(np.zeros(_obj(x).shape))
    tf.ones_like = lambda x, **k: Tensor(np.ones(_obj(x).shape))
    tf.transpose = lambda x, perm=None, **k: Tensor(np.transpose(_obj(x), perm))
    tf.reduce_max, tf.reduce_min = _axis_fold(_max2), _axis_fold(_min2)
    tf.minimum = lambda a, b, **k: Tensor(_map2(_min2, _obj(a), _obj(b)))
    tf.maximum = lambda a, b, **k: Tensor(_map2(_max2, _obj(a), _obj(b)))
    tf.concat = lambda xs, axis=0, **k: Tensor(np.concatenate([_obj(x) for x in xs], axis))
    tf.expand_dims = lambda x, axis=0, **k: Tensor(np.expand_dims(_obj(x), axis))
    tf.squeeze = lambda x, axis=None, **k: Tensor(np.squeeze(_obj(x), axis))
    tf.reshape = lambda x, s, **k: Tensor(_obj(x).reshape(tuple(int(v) for v in s)))
    tf.is_tensor = is_tensor
    tf.config = mod('tensorflow.config', set_soft_device_placement=lambda b: None)

    def set_seed(s):
        core.ctx().__dict__.setdefault('tf_seeds', []).append(s)
    tf.random = mod('tensorflow.random', set_seed=set_seed)

    def add_n(xs):
        r = 0
        for x in xs:
            r = r + x
        return r
    tf.math = mod('tensorflow.math', add_n=add_n, sigmoid=sigmoid, reduce_sum=reduce_sum, multiply=tf.multiply,
                  maximum=tf.maximum, l2_normalize=l2_normalize, reduce_mean=reduce_mean, reduce_max=tf.reduce_max, reduce_min=tf.reduce_min,
                  minimum=tf.minimum, add=tf.add, subtract=tf.subtract, divide=tf.divide, square=tf.square)
    tf.nn = mod('tensorflow.nn', relu=relu, sigmoid=sigmoid, l2_normalize=l2_normalize, max_pool1d=max_pool1d,
                embedding_lookup=embedding_lookup, l2_loss=lambda v: reduce_sum(Tensor(v) * Tensor(v)) / 2)
    losses = mod('tensorflow.losses', BinaryCrossentropy=_Bce, MeanSquaredError=_Loss)
    tf.losses = losses

    class Glorot:
        def __init__(self, *a, **k): pass
        def __call__(self, shape, **k): return Tensor(np.zeros([int(s) for s in shape]))
    tf.initializers = mod('tensorflow.initializers', GlorotUniform=Glorot)
    keras = mod('tensorflow.keras')
    keras.optimizers = mod('tensorflow.keras.optimizers', Adam=Optimizer, SGD=Optimizer)
    keras.models = mod('tensorflow.keras.models', Model=Model, Sequential=Sequential)
    keras.Sequential, keras.Model = Sequential, Model
    keras.layers = mod('tensorflow.keras.layers', Layer=Layer, Dense=Dense, Embedding=Embedding, Conv1D=Conv1D,
                       Dropout=Dropout)
    keras.regularizers = mod('tensorflow.keras.regularizers', l2=_L2)
    keras.losses = losses
    keras.initializers = tf.initializers
    tf.keras = keras
    return tf
