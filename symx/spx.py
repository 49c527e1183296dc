"""Minimal scipy.sparse / sklearn stand-ins over python objects (symbolic entries allowed)."""
import types

import numpy as np

from . import core
from .core import SymBase, SymBool, SymInt, SymNum


def _nz(v):
    return bool(v != 0)


def _dense(x):
    """anything -> 2d object ndarray"""
    if isinstance(x, spmatrix):
        return x.toarray()
    if isinstance(x, np.ndarray):
        a = x
    elif isinstance(x, (list, tuple)):
        rows = [list(r) if isinstance(r, (list, tuple, np.ndarray)) else r for r in x]
        if rows and not isinstance(rows[0], list):
            rows = [rows]
        a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
    else:
        a = np.empty((1, 1), dtype=object)
        a[0, 0] = x
    if a.ndim == 0:
        a = a.reshape(1, 1)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    return a


def _arr(vals):
    """1d array: native dtype if concrete, object otherwise"""
    vals = list(vals)
    if any(isinstance(v, SymBase) for v in vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a
    if not vals:
        return np.zeros(0)
    return np.array(vals)


def _pack(a):
    """2d object array -> native if fully concrete"""
    if a.dtype != object:
        return a
    if any(isinstance(v, SymBase) for v in a.ravel()):
        return a
    try:
        if all(isinstance(v, (bool, np.bool_)) for v in a.ravel()) and a.size:
            return a.astype(bool)
        return a.astype(float) if any(isinstance(v, (float, np.floating)) for v in a.ravel()) else a.astype(np.int64)
    except (TypeError, ValueError):
        return a


class spmatrix:
    __array_ufunc__ = None
    """row dict storage: self._r[i] = [(j, v), ...] sorted by j; explicit zeros are kept"""
    format = 'csr'
    ndim = 2

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self._dt = dtype
        if isinstance(arg1, spmatrix):
            self.shape = arg1.shape
            self._r = [list(r) for r in arg1._r]
            self._dt = dtype or arg1._dt
            if self.format == 'lil':
                pass
            return
        if isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(arg1[1], (tuple, list)) and len(arg1[1]) == 2 \
                and hasattr(arg1[1][0], '__len__'):
            data, (ri, ci) = arg1
            ri = [int(x) for x in ri]
            ci = [int(x) for x in ci]
            data = list(data)
            if not (len(ri) == len(ci) == len(data)):
                raise ValueError('row, column, and data array must all be the same size')
            if shape is None:
                if not ri:
                    raise ValueError('cannot infer dimensions from zero sized index arrays')
                shape = (max(ri) + 1, max(ci) + 1)
            shape = (int(shape[0]), int(shape[1]))
            if ri and (max(ri) >= shape[0] or min(ri) < 0):
                raise ValueError('row index exceeds matrix dimensions' if max(ri) >= shape[0] else 'negative row index found')
            if ci and (max(ci) >= shape[1] or min(ci) < 0):
                raise ValueError('column index exceeds matrix dimensions' if max(ci) >= shape[1] else 'negative column index found')
            self.shape = shape
            rows = [dict() for _ in range(shape[0])]
            for d, i, j in zip(data, ri, ci):
                rows[i][j] = rows[i][j] + d if j in rows[i] else d
            self._r = [sorted(r.items(), key=lambda t: t[0]) for r in rows]
            return
        if isinstance(arg1, tuple) and len(arg1) == 2 and all(isinstance(x, (int, np.integer)) for x in arg1):
            self.shape = (int(arg1[0]), int(arg1[1]))
            self._r = [[] for _ in range(self.shape[0])]
            return
        if isinstance(arg1, tuple) and len(arg1) == 3:
            data, indices, indptr = arg1
            n = len(indptr) - 1
            self._r = [[(int(indices[p]), data[p]) for p in range(int(indptr[i]), int(indptr[i + 1]))] for i in range(n)]
            m = shape[1] if shape is not None else (max([j for r in self._r for j, _ in r], default=-1) + 1)
            self.shape = (n, m)
            return
        a = _dense(arg1)
        self.shape = a.shape
        self._r = [[(j, a[i, j]) for j in range(a.shape[1]) if _nz(a[i, j])] for i in range(a.shape[0])]

    def _new(self, rows, shape, cls=None):
        m = (cls or type(self)).__new__(cls or type(self))
        m.shape = shape
        m._r = rows
        m._dt = None
        return m

    # conversions
    def toarray(self, *a, **k):
        out = np.empty(self.shape, dtype=object)
        out[:] = 0
        for i, r in enumerate(self._r):
            for j, v in r:
                out[i, j] = v
        flat = out.ravel()
        if any(isinstance(v, (float, np.floating)) for v in flat):
            for i in range(len(flat)):
                if not isinstance(flat[i], SymBase):
                    flat[i] = float(flat[i])
            out = flat.reshape(self.shape)
        return _pack(out)

    def todense(self, *a, **k): return self.toarray()
    @property
    def A(self): return self.toarray()
    def tocsr(self, *a, **k): return self._new([list(r) for r in self._r], self.shape, csr_matrix)
    def tolil(self, *a, **k): return self._new([list(r) for r in self._r], self.shape, lil_matrix)
    def tocoo(self, *a, **k): return self._new([list(r) for r in self._r], self.shape, coo_matrix)
    def tocsc(self, *a, **k): return self.tocsr()
    def copy(self): return self._new([list(r) for r in self._r], self.shape)

    def astype(self, t, **k):
        s = str(t)
        if t is bool or 'bool' in s:
            f = lambda v: bool(v != 0)
        elif t is int or 'int' in s:
            f = lambda v: (v._num() if type(v) is SymBool else core.sym_int(v) if isinstance(v, SymNum) else int(v))
        elif t is float or 'float' in s:
            f = lambda v: (v.to_real() if isinstance(v, SymInt) else v if isinstance(v, SymBase) else float(v))
        else:
            f = lambda v: v
        return self._new([[(j, f(v)) for j, v in r] for r in self._r], self.shape)

    def transpose(self, *a, **k):
        rows = [[] for _ in range(self.shape[1])]
        for i, r in enumerate(self._r):
            for j, v in r:
                rows[j].append((i, v))
        return self._new(rows, (self.shape[1], self.shape[0]))

    @property
    def T(self): return self.transpose()

    # structure
    @property
    def dtype(self):
        return np.dtype(object) if any(isinstance(v, SymBase) for r in self._r for _, v in r) else np.dtype(float)

    @property
    def nnz(self): return sum(len(r) for r in self._r)

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        if axis == 1:
            return np.array([len(r) for r in self._r])
        return self.T.getnnz(1)

    @property
    def data(self):
        if self.format == 'lil':
            out = np.empty(len(self._r), dtype=object)
            for i, r in enumerate(self._r):
                out[i] = [v for _, v in r]
            return out
        return _arr([v for r in self._r for _, v in r])

    @data.setter
    def data(self, vals):
        it = iter(list(vals))
        self._r = [[(j, next(it)) for j, _ in r] for r in self._r]

    @property
    def rows(self):
        out = np.empty(len(self._r), dtype=object)
        for i, r in enumerate(self._r):
            out[i] = [j for j, _ in r]
        return out

    @property
    def indices(self): return np.array([j for r in self._r for j, _ in r], dtype=np.int32)

    @property
    def indptr(self):
        p = [0]
        for r in self._r:
            p.append(p[-1] + len(r))
        return np.array(p, dtype=np.int32)

    @property
    def row(self): return np.array([i for i, r in enumerate(self._r) for _ in r], dtype=np.int32)

    @property
    def col(self): return np.array([j for r in self._r for j, _ in r], dtype=np.int32)

    def nonzero(self):
        rr = [(i, j) for i, r in enumerate(self._r) for j, v in r if _nz(v)]
        return np.array([i for i, _ in rr], dtype=int), np.array([j for _, j in rr], dtype=int)

    def eliminate_zeros(self):
        self._r = [[(j, v) for j, v in r if _nz(v)] for r in self._r]

    def sort_indices(self): pass
    def sum_duplicates(self): pass
    def setdiag(self, v):
        for i in range(min(self.shape)):
            self[i, i] = v

    def __getitem__(self, key):
        if isinstance(key, tuple):
            i, j = key
            if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
                i, j = int(i), int(j)
                if i < 0: i += self.shape[0]
                if j < 0: j += self.shape[1]
                if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                    raise IndexError('index out of range')
                for jj, v in self._r[i]:
                    if jj == j:
                        return v
                return 0.0
            sub = self[i] if not isinstance(i, slice) or i != slice(None) else self
            if isinstance(j, slice) and j == slice(None):
                return sub
            return sub.T[j].T
        if isinstance(key, (int, np.integer)):
            k = int(key)
            if k < 0: k += self.shape[0]
            if not 0 <= k < self.shape[0]:
                raise IndexError(f'row index ({key}) out of range')
            return self._new([list(self._r[k])], (1, self.shape[1]))
        if isinstance(key, float):
            raise IndexError('Index dimension must be 1 or 2')
        idx = range(self.shape[0])[key] if isinstance(key, slice) else [int(x) for x in key]
        return self._new([list(self._r[i]) for i in idx], (len(idx), self.shape[1]))

    def __setitem__(self, key, v):
        i, j = key
        self._r[i] = sorted([(a, b) for a, b in self._r[i] if a != j] + [(int(j), v)], key=lambda t: t[0])

    def getrow(self, i): return self[i]
    def getcol(self, j): return self.T[j].T
    def __iter__(self): return (self[i] for i in range(self.shape[0]))
    def __len__(self): raise TypeError('sparse matrix length is ambiguous; use getnnz()')
    def diagonal(self, k=0):
        d = self.toarray()
        return _arr([d[i, i] for i in range(min(self.shape))])

    # arithmetic
    def _ew(self, o, f):
        a, b = self.toarray(), np.broadcast_to(_dense(o), self.shape)
        out = np.empty(self.shape, dtype=object)
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                out[i, j] = f(a[i, j], b[i, j])
        return out

    def _union(self, o, f):
        rows = []
        for r, q in zip(self._r, o._r):
            d, e = dict(r), dict(q)
            rows.append(sorted(((j, f(d.get(j, 0), e.get(j, 0))) for j in set(d) | set(e)), key=lambda t: t[0]))
        return self._new(rows, self.shape, csr_matrix)

    def __add__(self, o):
        if isinstance(o, spmatrix):
            return self._union(o, lambda a, b: a + b)
        if not hasattr(o, '__len__') and not _nz(o):
            return self.copy()
        return _pack(self._ew(o, lambda a, b: a + b))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, spmatrix):
            return self._union(o, lambda a, b: a - b)
        return _pack(self._ew(o, lambda a, b: a - b))

    def __rsub__(self, o):
        return _pack(self._ew(o, lambda a, b: b - a))

    def __neg__(self): return self._new([[(j, -v) for j, v in r] for r in self._r], self.shape)

    def dot(self, o):
        if not isinstance(o, (spmatrix, np.ndarray, list)):
            return self * o
        sp = isinstance(o, spmatrix)
        if sp:
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            rows = []
            for r in self._r:
                acc = {}
                for j, v in r:
                    for k, w in o._r[j]:
                        acc[k] = acc[k] + v * w if k in acc else v * w
                rows.append(sorted(acc.items(), key=lambda t: t[0]))
            return self._new(rows, (self.shape[0], o.shape[1]), csr_matrix)
        b = np.asarray(o, dtype=object)
        one = b.ndim == 1
        b2 = b.reshape(-1, 1) if one else b
        out = np.empty((self.shape[0], b2.shape[1]), dtype=object)
        for i, r in enumerate(self._r):
            for k in range(b2.shape[1]):
                out[i, k] = core.Sum(v * b2[j, k] for j, v in r)
        return _pack(out).ravel() if one else _pack(out)

    def __mul__(self, o):
        if isinstance(o, (spmatrix, np.ndarray)):
            return self.dot(o)
        return self._new([[(j, v * o) for j, v in r] for r in self._r], self.shape)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return (self.T.dot(o.T)).T
        return self * o
    __matmul__ = dot

    def multiply(self, o):
        if isinstance(o, spmatrix) and o.shape == self.shape:
            rows = []
            for r, q in zip(self._r, o._r):
                d = dict(q)
                rows.append([(j, v * d[j]) for j, v in r if j in d])
            return self._new(rows, self.shape, csr_matrix)
        if not hasattr(o, '__len__') and not isinstance(o, spmatrix):
            return self * o
        b = np.broadcast_to(_dense(o), self.shape)
        return self._new([[(j, v * b[i, j]) for j, v in r] for i, r in enumerate(self._r)], self.shape, csr_matrix)

    def power(self, n, dtype=None): return self._new([[(j, v ** n) for j, v in r] for r in self._r], self.shape)
    def __pow__(self, n): return self.power(n)

    def __truediv__(self, o):
        if isinstance(o, (spmatrix, np.ndarray)):
            def div(a, b):
                if isinstance(a, SymBase) or isinstance(b, SymBase):
                    if not _nz(b):
                        return float('nan') if not _nz(a) else float('inf')
                    return a / b
                with np.errstate(all='ignore'):
                    return np.float64(a) / np.float64(b)
            return _pack(self._ew(o, div))
        return self._new([[(j, v / o) for j, v in r] for r in self._r], self.shape)

    def sum(self, axis=None, **k):
        d = [[v for _, v in r] for r in self._r]
        if axis is None:
            return core.Sum(core.Sum(r) for r in d)
        if axis in (1, -1):
            out = np.empty((self.shape[0], 1), dtype=object)
            for i, r in enumerate(d):
                out[i, 0] = core.Sum(r)
            return MatLike(out)
        return MatLike(self.T.sum(1).a.T)

    def mean(self, axis=None):
        n = {None: self.shape[0] * self.shape[1], 0: self.shape[0], 1: self.shape[1]}[axis]
        s = self.sum(axis)
        return MatLike(s.a / n) if isinstance(s, MatLike) else s / n

    def _ext(self, f, axis=None):
        if axis is not None:
            core.raise_unsupported('sparse max(axis)')
        vals = [v for r in self._r for _, v in r]
        if len(vals) < self.shape[0] * self.shape[1]:
            vals.append(0)
        r = vals[0]
        for v in vals[1:]:
            if bool(f(v, r)):
                r = v
        return r

    def max(self, axis=None, *a): return self._ext(lambda a, b: a > b, axis)
    def min(self, axis=None, *a): return self._ext(lambda a, b: a < b, axis)

    def _cmp(self, o, f):
        a = self.toarray()
        b = np.broadcast_to(_dense(o), self.shape)
        return csr_matrix(np.array([[bool(f(x, y)) for x, y in zip(p, q)] for p, q in zip(a, b)]).reshape(self.shape))

    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    __hash__ = object.__hash__


class MatLike:
    """np.matrix stand-in returned by .sum(axis)"""
    __array_priority__ = 1e8

    def __init__(self, a):
        self.a = a

    @property
    def shape(self): return self.a.shape
    @property
    def A1(self): return _arr(self.a.ravel())
    @property
    def A(self): return self.a
    def squeeze(self, *a): return MatLike(self.a.reshape(1, -1))
    def ravel(self, *a): return MatLike(self.a.reshape(1, -1))
    def flatten(self, *a): return MatLike(self.a.reshape(1, -1))
    def tolist(self): return self.a.tolist()
    def __array__(self, dtype=None, copy=None): return _pack(self.a)
    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return MatLike(self.a[k].reshape(1, -1))
        r = self.a[k]
        return MatLike(r) if isinstance(r, np.ndarray) else r
    def __iter__(self): return (self[i] for i in range(self.a.shape[0]))
    def __truediv__(self, o): return MatLike(self.a / (np.asarray(o) if not np.isscalar(o) else o))
    def __mul__(self, o): return MatLike(self.a * o)
    def __setitem__(self, k, v): self.a[k.a if isinstance(k, MatLike) else k] = v
    def _cmp(self, o, f):
        a = np.asarray(self.a, dtype=object)
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = bool(f(a[i], o))
        return out
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    __hash__ = None
    @property
    def T(self): return MatLike(self.a.T)
    def item(self, *a): return self.a.item(*a)


class csr_matrix(spmatrix):
    format = 'csr'


class csc_matrix(spmatrix):
    format = 'csc'


class coo_matrix(spmatrix):
    format = 'coo'


class lil_matrix(spmatrix):
    format = 'lil'


class dok_matrix(spmatrix):
    format = 'dok'


def diags(diagonals, offsets=0, shape=None, **k):
    vals = list(diagonals[0]) if hasattr(diagonals[0], '__len__') else list(diagonals)
    n = len(vals)
    m = csr_matrix((n, n))
    m._r = [[(i, v)] if v is not None else [] for i, v in enumerate(vals)]
    return m


def issparse(x):
    return isinstance(x, spmatrix)


def vstack(ms, **k):
    rows = [list(r) for m in ms for r in csr_matrix(m)._r]
    return csr_matrix((0, 0))._new(rows, (len(rows), csr_matrix(ms[0]).shape[1]))


def identity(n, **k):
    return diags([1.0] * n)


def make_scipy():
    sp = types.ModuleType('scipy.sparse')
    for f in (csr_matrix, csc_matrix, coo_matrix, lil_matrix, dok_matrix, diags, issparse, vstack, identity, spmatrix):
        setattr(sp, f.__name__, f)
    sp.eye = identity
    sp.isspmatrix = issparse
    sp.isspmatrix_csr = lambda x: type(x) is csr_matrix
    sp.csr_array = csr_matrix
    s = types.ModuleType('scipy')
    s.sparse = sp
    s.__path__ = []
    return s, sp


# --------------------------------------------------------------------------- sklearn
def cosine_similarity(X, Y=None, dense_output=True):
    X = X if isinstance(X, spmatrix) else csr_matrix(X)
    Y = X if Y is None else (Y if isinstance(Y, spmatrix) else csr_matrix(Y))

    def norm(M):
        rows = []
        for r in M._r:
            s = core.sym_sqrt(core.Sum(v * v for _, v in r)) if r else 0
            if not r or not _nz(s):
                rows.append(list(r))
            else:
                rows.append([(j, v / s) for j, v in r])
        return M._new(rows, M.shape, csr_matrix)
    K = norm(X).dot(norm(Y).T)
    return K.toarray() if dense_output else K


def _pairs(t, p):
    t, p = list(t), list(p)
    if len(t) != len(p):
        raise ValueError(f'Found input variables with inconsistent numbers of samples: [{len(t)}, {len(p)}]')
    if not t:
        raise ValueError('Found array with 0 sample(s) (shape=(0,)) while a minimum of 1 is required.')
    return t, p


def mean_squared_error(y_true, y_pred, *, sample_weight=None, squared=True, **k):
    t, p = _pairs(y_true, y_pred)
    r = core.Sum((a - b) * (a - b) for a, b in zip(t, p)) / len(t)
    return r if squared else core.sym_sqrt(r)


def mean_absolute_error(y_true, y_pred, **k):
    t, p = _pairs(y_true, y_pred)
    return core.Sum(abs(a - b) for a, b in zip(t, p)) / len(t)


def make_sklearn():
    m = types.ModuleType('sklearn.metrics')
    m.__path__ = []
    m.mean_squared_error = mean_squared_error
    m.mean_absolute_error = mean_absolute_error
    pw = types.ModuleType('sklearn.metrics.pairwise')
    pw.cosine_similarity = cosine_similarity
    m.pairwise = pw
    s = types.ModuleType('sklearn')
    s.__path__ = []
    s.metrics = m
    return s, m, pw
